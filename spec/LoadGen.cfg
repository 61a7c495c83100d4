SPECIFICATION Spec
CONSTANTS
  MaxDamage = 1
  Emit = TRUE
CHECK_DEADLOCK FALSE
