SPECIFICATION Spec
CONSTANTS
  n = 2
  Off = {1, 2, 3}
  Diag = {3, 4, 5}
  Rhs = {1, 2, 3}
  Start = {2, 3}
  Pre = {2, 4}
INVARIANTS TrueResidual AtMostN Conjugate Orthogonal Characterised NoStall
CHECK_DEADLOCK FALSE
