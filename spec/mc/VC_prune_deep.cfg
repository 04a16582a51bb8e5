SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {7}
  Targets = {40}
  MaxBlocks = 3
  MaxBatches = 0
  MaxLen = 1
  Ids <- MCIds4
  Vals <- MCVals
INVARIANTS PruningSound
CHECK_DEADLOCK FALSE
