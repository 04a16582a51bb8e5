SPECIFICATION Spec
CONSTANTS
  G = 7
  HeaderSize = 64
  BlockFixed = 80
  PageSize = 128
  Encs = {0, 3, 5, 6}
  Sizes = {1, 2}
  Gaps = {0, 5}
  Bytewise = TRUE
INVARIANTS ReadsBack WriterLayout CutRefused GrownRefused
CHECK_DEADLOCK FALSE
