SPECIFICATION Spec
CONSTANTS
  Shape <- QuickShape
  Calls = 6
  Budget = 2
  Faulty = ""
  Log = FALSE
INVARIANTS NeverRecovers
CHECK_DEADLOCK FALSE
