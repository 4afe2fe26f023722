SPECIFICATION Spec
CONSTANTS
  N = 3
  A = 2
  K = 4
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
