SPECIFICATION Spec
CONSTANTS
  MaxDamage = 1
  Emit = FALSE
INVARIANTS Decides
CHECK_DEADLOCK FALSE
