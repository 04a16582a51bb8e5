SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {0, 5, 6, 7}
  Targets = {11, 12, 13, 15, 16, 28, 32, 40}
  MaxBlocks = 1
  MaxBatches = 0
  MaxLen = 3
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS Packed FitRight
CHECK_DEADLOCK FALSE
