CONSTANTS
  Order = 1
  MaxT = 2
SPECIFICATION Spec
INVARIANTS Sound Lagrange AreaIsSum
CHECK_DEADLOCK FALSE
