SPECIFICATION Spec
VIEW View
CONSTANTS
  MaxT = 2
  Emit = FALSE
INVARIANTS Counted NeverTwice
CHECK_DEADLOCK FALSE
