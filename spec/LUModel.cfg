SPECIFICATION Spec
CONSTANTS
  n = 2
  Vals = {0, 1, 2, 3, 4, 5}
  Off = 2
  Emit = FALSE
INVARIANTS Factorised Bounded Shape Sign SingularOnly RegularElse Inverted FwdSolved
CHECK_DEADLOCK FALSE
