SPECIFICATION Spec
CONSTANTS
  Shape <- DeepShape
  Calls = 6
  Budget = 3
  Faulty = ""
  Log = FALSE
INVARIANTS Right Partial Healthy Closed NoLeak
CHECK_DEADLOCK FALSE
