SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
  Lists = {1, 2, 3}
CHECK_DEADLOCK FALSE
INVARIANTS Represents FreeIsClean Distinct Disjoint
POSTCONDITION Accepted
