SPECIFICATION Spec
CONSTANTS
  Items = 3
  Calls = 5
  Budget = 2
  FlushAt = 2
  Cap = 2
  Faulty = ""
  Log = FALSE
INVARIANTS Honest ExactlyOnce DurableFinal DurableBlock RefusedOrComplete Kept
CHECK_DEADLOCK FALSE
