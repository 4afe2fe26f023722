SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Agrees AllRootsAgree Complete Dead
CHECK_DEADLOCK FALSE
