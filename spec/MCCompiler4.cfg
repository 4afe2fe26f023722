SPECIFICATION Spec
CONSTANTS
  N = 5
  A = 1
  B = 2
  K = 0
  AnySlot = FALSE
  Lookup = FALSE
INVARIANTS Slots Trees Refines OthersRefine
CHECK_DEADLOCK FALSE
