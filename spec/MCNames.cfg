SPECIFICATION Spec
CONSTANT M = 2
INVARIANTS Sound Elsewhere OtherNames Anywhere NoRanking
CHECK_DEADLOCK FALSE
