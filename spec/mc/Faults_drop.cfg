SPECIFICATION Spec
CONSTANTS
  Items = 3
  Calls = 5
  Budget = 2
  FlushAt = 2
  Cap = 2
  Faulty = "DropPending"
  Log = FALSE
INVARIANTS ExactlyOnce
CHECK_DEADLOCK FALSE
