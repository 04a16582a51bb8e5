SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Calls = 2
  Locked = FALSE
  StaleFlag = FALSE
INVARIANTS NoRace
CHECK_DEADLOCK FALSE
