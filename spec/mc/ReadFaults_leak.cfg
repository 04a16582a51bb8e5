SPECIFICATION Spec
CONSTANTS
  Shape <- QuickShape
  Calls = 6
  Budget = 2
  Faulty = "leak"
  Log = FALSE
INVARIANTS NoLeak
CHECK_DEADLOCK FALSE
