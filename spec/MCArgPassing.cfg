SPECIFICATION Spec
CONSTANTS
  Depth = 2
  MaxVars = 2
  MaxSink = 1
  MaxNew = 5
INVARIANTS UniqueOwner NothingDangles NothingLeaks Copies
PROPERTY NoRevival
CHECK_DEADLOCK FALSE
