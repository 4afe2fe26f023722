SPECIFICATION Spec
CONSTANTS
  Regs = {0}
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT Undo
PROPERTY Handled
CHECK_DEADLOCK FALSE
