SPECIFICATION Spec
CONSTANTS
  G = 1
  Sample = FALSE
INVARIANTS Arithmetic Order RoundTrips Sections
CHECK_DEADLOCK FALSE
