SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2, 3, 4}
  Lists = {1, 2}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANTS Represents FreeIsClean Distinct Disjoint
CHECK_DEADLOCK FALSE
