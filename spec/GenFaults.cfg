SPECIFICATION GSpec
CONSTANTS
  Items = 6
  Calls = 12
  Budget = 4
  FlushAt = 2
  Cap = 2
  Faulty = ""
  Log = TRUE
INVARIANTS Store Honest ExactlyOnce DurableFinal DurableBlock RefusedOrComplete Kept
CHECK_DEADLOCK FALSE
