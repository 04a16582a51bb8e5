SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Calls = 2
  Locked = TRUE
  StaleFlag = FALSE
INVARIANTS NoRace Correct NothingKept
CHECK_DEADLOCK FALSE
