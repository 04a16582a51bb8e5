SPECIFICATION Spec
CONSTANTS
  Items = 3
  Calls = 5
  Budget = 2
  FlushAt = 2
  Cap = 2
  Faulty = "SwallowClose"
  Log = FALSE
INVARIANTS Honest
CHECK_DEADLOCK FALSE
