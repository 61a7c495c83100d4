SPECIFICATION Spec
CONSTANTS
  n = 2
  Vals = {0, 1, 2, 3, 4}
  Off = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
