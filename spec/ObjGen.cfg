SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Emit = TRUE
CHECK_DEADLOCK FALSE
