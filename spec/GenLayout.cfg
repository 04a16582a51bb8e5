SPECIFICATION Spec
CONSTANTS G = 7 HeaderSize = 64 BlockFixed = 80 PageSize = 4096
CHECK_DEADLOCK FALSE
