SPECIFICATION Spec
CONSTANTS
  nv = 4
  ne = 3
  Order = 2
INVARIANTS Kept Prepared OnePerEdge Shared
CHECK_DEADLOCK FALSE
