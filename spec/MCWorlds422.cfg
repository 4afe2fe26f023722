SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 2
  K = 2
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
