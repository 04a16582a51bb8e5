SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {5}
  Targets = {16}
  MaxBlocks = 0
  MaxBatches = 3
  MaxLen = 2
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS SimpleExact
CHECK_DEADLOCK FALSE
