SPECIFICATION Spec
CONSTANTS
R = 3
C = 3
Vals = {1}
FirstMatch = FALSE
Emit = TRUE
VIEW NoRet
CHECK_DEADLOCK FALSE
