SPECIFICATION Spec
CONSTANTS
  n = 4
  Emit = FALSE
INVARIANTS Ordered Partial Covers
CHECK_DEADLOCK FALSE
