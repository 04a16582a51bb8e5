SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  MaxBlocks = 3
  MaxWorkers = 3
  Vals <- PVals
  Merge = "eager"
  Chunks = "all"
INVARIANTS NoneLeft
CHECK_DEADLOCK FALSE
