SPECIFICATION Spec
CONSTANTS
  NT = 2
  MAXD = 2
  H0 = 4
INVARIANTS Executed Partial Followed Roundtrip
CHECK_DEADLOCK FALSE
