SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {0, 1, 2, 3, 4, 5, 6, 7}
  MaxLen = 1
  MaxWrites = 1
  MaxOpens = 1
  MaxReads = 1
  Ids <- MCIds
  Vals <- MCVals
  Describe <- BadDescribe
INVARIANTS Described
CHECK_DEADLOCK FALSE
