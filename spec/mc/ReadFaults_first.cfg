SPECIFICATION Spec
CONSTANTS
  Shape <- QuickShape
  Calls = 6
  Budget = 2
  Faulty = "first"
  Log = FALSE
INVARIANTS Closed
CHECK_DEADLOCK FALSE
