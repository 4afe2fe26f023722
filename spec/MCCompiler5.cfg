SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 2
  B = 1
  K = 1
  AnySlot = FALSE
  Lookup = TRUE
INVARIANTS Slots Trees Refines OthersRefine
CHECK_DEADLOCK FALSE
