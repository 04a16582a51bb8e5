SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 3
  Starts <- S1
  Steps <- D1
  MaxN = 3
  Encs = {0, 1, 2, 4, 7}
INVARIANTS Columns Sizes Aggs Sets
CHECK_DEADLOCK FALSE
