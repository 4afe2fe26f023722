SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
POSTCONDITION Accepted
