SPECIFICATION Spec
CONSTANTS
  G = 7
  HeaderSize = 64
  BlockFixed = 80
  PageSize = 128
  Encs = {0, 1, 2, 3, 4, 5, 6, 7}
  Sizes = {1, 3}
  Gaps = {0, 5}
  Bytewise = TRUE
INVARIANTS ReadsBack WriterLayout CutRefused GrownRefused
CHECK_DEADLOCK FALSE
