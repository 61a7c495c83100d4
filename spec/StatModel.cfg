SPECIFICATION Spec
CONSTANTS
  n = 2
  Off = {1, 2, 3}
  Diag = {1, 2, 4}
  Rhs = {0, 1}
  Start = {0, 1}
  Ws = {1, 3}
  Eps2 = {0, 1, 8}
  Iters = 3
INVARIANTS AsSpecified ZeroFound Fresh FixedPoint
CHECK_DEADLOCK FALSE
