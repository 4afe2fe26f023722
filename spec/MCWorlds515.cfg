SPECIFICATION Spec
CONSTANTS
  N = 5
  A = 1
  K = 5
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
