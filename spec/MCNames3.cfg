SPECIFICATION Spec
CONSTANT M = 3
INVARIANTS Sound Elsewhere OtherNames Anywhere NoRanking
CHECK_DEADLOCK FALSE
