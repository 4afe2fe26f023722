SPECIFICATION Spec
CONSTANTS
  MySlots = {34, 20, 24}
  MyClasses = {3, 5, 8}
  MaxObjs = 2
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Sane
PROPERTY OthersUnaffected
CHECK_DEADLOCK FALSE
