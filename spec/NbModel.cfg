SPECIFICATION Spec
CONSTANTS
  nv = 4
  ne = 3
  Emit = FALSE
INVARIANTS LinkedAtEnd RefusedOnly Partial Flagged
CHECK_DEADLOCK FALSE
