SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {0, 1, 2, 3, 4, 5, 6, 7}
  Targets = {16, 27, 40}
  MaxBlocks = 2
  MaxBatches = 2
  MaxLen = 2
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS ExactlyOnce Packed SimpleExact StatsTruthful EmptyZero MultiSame
CHECK_DEADLOCK FALSE
