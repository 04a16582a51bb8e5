SPECIFICATION Spec
CONSTANTS
  Shape <- QuickShape
  Calls = 6
  Budget = 2
  Faulty = "skip"
  Log = FALSE
INVARIANTS Right
CHECK_DEADLOCK FALSE
