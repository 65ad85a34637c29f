SPECIFICATION Spec
CONSTANTS
  N = 3
  V = 2
  W = 3
  C = 5
  GN = 4
  FN = 3
  CN = 3
INVARIANTS Feasible Exact Coloured Cliqued Served
CHECK_DEADLOCK FALSE
