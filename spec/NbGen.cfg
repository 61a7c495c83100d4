SPECIFICATION Spec
CONSTANTS
  nv = 5
  ne = 3
  Emit = TRUE
CHECK_DEADLOCK FALSE
