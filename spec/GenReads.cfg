SPECIFICATION GSpec
CONSTANTS
  Shape <- GenShape
  Calls = 24
  Budget = 6
  Faulty = ""
  Log = TRUE
INVARIANTS Store Right Partial Healthy Closed NoLeak
CHECK_DEADLOCK FALSE
