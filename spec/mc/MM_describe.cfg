SPECIFICATION Spec
CONSTANTS
  G = 1
  HeaderSize = 4
  BlockFixed = 5
  PageSize = 16
  FlushAt = 2
  Encs = {1, 4, 6}
  MaxLen = 1
  MaxWrites = 1
  MaxOpens = 1
  MaxReads = 1
  Ids <- MCIds
  Vals <- OneVal

INVARIANTS Independent Answers Described
PROPERTIES Touches
CHECK_DEADLOCK FALSE
