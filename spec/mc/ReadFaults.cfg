SPECIFICATION Spec
CONSTANTS
  Shape <- QuickShape
  Calls = 6
  Budget = 2
  Faulty = ""
  Log = FALSE
INVARIANTS Right Partial Healthy Closed NoLeak
CHECK_DEADLOCK FALSE
