SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {0, 3, 6, 7}
  Targets = {16, 40}
  MaxBlocks = 2
  MaxBatches = 2
  MaxLen = 2
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS MultiSame
CHECK_DEADLOCK FALSE
