SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {7}
  Targets = {40}
  MaxBlocks = 3
  MaxBatches = 0
  MaxLen = 2
  Ids <- MCIds
  Vals <- MCVals
INVARIANTS ExactlyOnce Packed StatsTruthful EmptyZero MultiSame ParallelSame
CHECK_DEADLOCK FALSE
