SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  MaxBlocks = 3
  MaxWorkers = 3
  Vals <- PVals
  Merge = "naive"
  Chunks = "all"
INVARIANTS ParallelSame ChannelFits
CHECK_DEADLOCK FALSE
