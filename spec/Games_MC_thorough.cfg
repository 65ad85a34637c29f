SPECIFICATION Spec
CONSTANTS
  C = 3
  P = 4
  M = 3
  W = 3
  H = 3
INVARIANTS Scores Secret Fair Cyclic Bounded Walk Reachable
CHECK_DEADLOCK FALSE
