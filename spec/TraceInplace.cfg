SPECIFICATION LSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
