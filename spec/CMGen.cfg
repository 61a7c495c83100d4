SPECIFICATION Spec
CONSTANTS
  n = 4
  Emit = TRUE
CHECK_DEADLOCK FALSE
