SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxT = 1
  Emit = TRUE
CHECK_DEADLOCK FALSE
