SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {3, 7}
  Targets = {16, 40}
  MaxBlocks = 1
  MaxBatches = 0
  MaxLen = 4
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS Packed FitRight
CHECK_DEADLOCK FALSE
