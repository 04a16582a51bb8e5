SPECIFICATION Spec
CONSTANTS
  Items = 3
  Calls = 5
  Budget = 2
  FlushAt = 2
  Cap = 2
  Faulty = "SwallowSync"
  Log = FALSE
INVARIANTS DurableFinal
CHECK_DEADLOCK FALSE
