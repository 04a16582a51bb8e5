SPECIFICATION TraceSpec
CONSTANTS
  DiskPage = 4096
  G = 7
  HeaderSize = 64
  BlockFixed = 80
  PageSize = 4096
  FlushAt = 1000
CHECK_DEADLOCK FALSE
