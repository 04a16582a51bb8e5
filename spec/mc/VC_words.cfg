SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {7}
  Targets = {16}
  MaxBlocks = 2
  MaxBatches = 0
  MaxLen = 2
  Ids <- MCIds4
  Vals <- MCVals4
INVARIANTS ExactlyOnce Packed StatsTruthful EmptyZero
CHECK_DEADLOCK FALSE
