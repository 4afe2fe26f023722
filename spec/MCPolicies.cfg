SPECIFICATION Spec
CONSTANTS
  Pol = {11, 12, 13, 21, 25, 32, 81, 83}
  MaxStep = 4
INVARIANTS Represents ByBase Idem Undo
CHECK_DEADLOCK FALSE
