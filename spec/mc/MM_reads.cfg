SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {7}
  MaxLen = 1
  MaxWrites = 2
  MaxOpens = 1
  MaxReads = 3
  Ids <- MCIds
  Vals <- OneVal

INVARIANTS Independent Answers Described
PROPERTIES Touches
CHECK_DEADLOCK FALSE
