SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Emit = FALSE
INVARIANT Reads
CHECK_DEADLOCK FALSE
