SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {7}
  MaxLen = 1
  MaxWrites = 3
  MaxOpens = 2
  MaxReads = 2
  Ids <- MCIds
  Vals <- MCVals

INVARIANTS Independent Answers Described
PROPERTIES Touches
CHECK_DEADLOCK FALSE
