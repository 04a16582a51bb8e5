SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Starts <- S2
  Steps <- D2
  MaxN = 2
  Encs = {1, 4, 7}
INVARIANTS Columns Sizes Aggs Sets
CHECK_DEADLOCK FALSE
