SPECIFICATION Spec
CONSTANTS
  N = 3
  A = 3
  K = 2
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
