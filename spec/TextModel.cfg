SPECIFICATION Spec
CONSTANT
  Cplx = TRUE
INVARIANT Determines
CHECK_DEADLOCK FALSE
