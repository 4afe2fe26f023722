SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 1
  B = 2
  K = 0
  AnySlot = TRUE
  Lookup = FALSE
INVARIANTS Slots Trees Refines OthersRefine
CHECK_DEADLOCK FALSE
