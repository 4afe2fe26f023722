SPECIFICATION Spec
CONSTANTS
  N = 4
  A = 2
  B = 2
  K = 0
  AnySlot = FALSE
  Lookup = FALSE
INVARIANTS Slots Trees Refines OthersRefine
CHECK_DEADLOCK FALSE
