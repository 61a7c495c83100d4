SPECIFICATION Spec
CONSTANTS
  Steps = 1
  Side = 2
INVARIANTS BasisOk TriOk BinomOk CrossOk
CHECK_DEADLOCK FALSE
