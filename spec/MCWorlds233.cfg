SPECIFICATION Spec
CONSTANTS
  N = 2
  A = 3
  K = 3
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
