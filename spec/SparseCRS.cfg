SPECIFICATION Spec
CONSTANTS
R = 3
C = 3
Vals = {1}
FirstMatch = FALSE
Emit = FALSE
INVARIANTS Refines WellFormed Counted EraseReturnsNext
PROPERTIES EndOnlyAtEnd
CHECK_DEADLOCK FALSE
