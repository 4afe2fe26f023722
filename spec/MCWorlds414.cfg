SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 1
  K = 4
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
