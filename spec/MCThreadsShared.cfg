SPECIFICATION Spec
CONSTANTS
  Thread = {t1, t2}
  Shared = TRUE
  N = 3
  A = 2
  K = 2
  Again = TRUE
INVARIANT AsAlone
PROPERTY CallsDoNotWrite
SYMMETRY Symm
CHECK_DEADLOCK FALSE
