SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 2
  K = 3
  Emit = TRUE
INVARIANTS Theorems Emitted
CHECK_DEADLOCK FALSE
