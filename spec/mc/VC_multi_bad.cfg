SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Encs = {7}
  Targets = {40}
  MaxBlocks = 3
  MaxBatches = 2
  MaxLen = 1
  Ids <- MCIds
  Vals <- MCVals
  AggMultiPass <- BadMultiPass
INVARIANTS MultiSame
CHECK_DEADLOCK FALSE
