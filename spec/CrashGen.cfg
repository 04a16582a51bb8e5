SPECIFICATION Spec
CONSTANT DiskPage = 4096
CHECK_DEADLOCK FALSE
