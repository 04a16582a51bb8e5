SPECIFICATION Spec
CONSTANTS
  G = 1
  Sample = TRUE
INVARIANTS Arithmetic Order RoundTrips Sections
CHECK_DEADLOCK FALSE
