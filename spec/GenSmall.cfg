SPECIFICATION Spec
CONSTANTS G = 7
CHECK_DEADLOCK FALSE
