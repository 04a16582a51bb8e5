SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {7}
  MaxLen = 1
  MaxWrites = 1
  MaxOpens = 1
  MaxReads = 2
  Ids <- MCIds
  Vals <- MCVals
  Fetch <- BadFetch
  Remember <- BadRemember
  Overwrite <- BadOverwrite
INVARIANTS Answers
CHECK_DEADLOCK FALSE
