SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  MaxBlocks = 4
  MaxWorkers = 4
  Vals <- PVals2
  Merge = "count"
  Chunks = "all"
INVARIANTS ParallelSame ChannelFits NoneLeft
CHECK_DEADLOCK FALSE
