SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  MaxBlocks = 2
  MaxWorkers = 3
  Vals <- PVals
  Merge = "count"
  Chunks = "all"
INVARIANTS ParallelSame ChannelFits NoneLeft
CHECK_DEADLOCK FALSE
PROPERTY Finishes
