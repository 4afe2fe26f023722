SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Agrees AllRootsAgree Complete Dead
CHECK_DEADLOCK FALSE
