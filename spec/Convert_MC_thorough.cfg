SPECIFICATION Spec
CONSTANTS
  NT = 2
  MAXD = 3
  H0 = 6
INVARIANTS Executed Partial Followed Roundtrip
CHECK_DEADLOCK FALSE
