SPECIFICATION Spec
CONSTANTS G = 7 HeaderSize = 64 BlockFixed = 80 PageSize = 4096 FlushAt = 1000 Length = 45
CONSTRAINT Written
CHECK_DEADLOCK FALSE
