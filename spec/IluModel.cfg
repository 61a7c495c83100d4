SPECIFICATION Spec
CONSTANTS
  n = 3
  Vals = {0, 1, 2}
  Off = 1
INVARIANTS OnPattern InPattern Operator Operator0 Full Inverses Singular2
CHECK_DEADLOCK FALSE
