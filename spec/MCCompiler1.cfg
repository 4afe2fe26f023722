SPECIFICATION Spec
CONSTANTS
  N = 3
  A = 2
  B = 1
  K = 2
  AnySlot = TRUE
  Lookup = TRUE
INVARIANTS Slots Trees Refines OthersRefine
CHECK_DEADLOCK FALSE
