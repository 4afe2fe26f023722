SPECIFICATION Spec
CONSTANTS W = 4  MaxIds = 4  MaxAttempts = 1  Passes = 2
INVARIANTS Correct Checked Bounded
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
