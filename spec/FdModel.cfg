CONSTANTS
  MaxX = 4
  MaxY = 4
  Steps = 2
SPECIFICATION Spec
INVARIANTS StaysExact WholeSystem Definite Causal
CHECK_DEADLOCK FALSE
