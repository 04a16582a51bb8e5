SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {7}
  MaxLen = 1
  MaxWrites = 3
  MaxOpens = 1
  MaxReads = 1
  Ids <- MCIds
  Vals <- MCVals
  SimpleWrite <- BadSimpleWrite
INVARIANTS Independent
CHECK_DEADLOCK FALSE
