SPECIFICATION Spec
CONSTANTS
  Items = 4
  Calls = 9
  Budget = 4
  FlushAt = 2
  Cap = 2
  Faulty = ""
  Log = FALSE
INVARIANTS Honest ExactlyOnce DurableFinal DurableBlock RefusedOrComplete Kept Released
CHECK_DEADLOCK FALSE
