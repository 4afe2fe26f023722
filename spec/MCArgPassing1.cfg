SPECIFICATION Spec
CONSTANTS
  Depth = 3
  MaxVars = 2
  MaxSink = 1
  MaxNew = 6
INVARIANTS UniqueOwner NothingDangles NothingLeaks Copies
PROPERTY NoRevival
CHECK_DEADLOCK FALSE
