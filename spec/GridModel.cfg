SPECIFICATION Spec
CONSTANTS
  MaxN = 6
INVARIANTS Memory Nondegenerate SameSense Complete Refusal
CHECK_DEADLOCK FALSE
