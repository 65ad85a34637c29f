SPECIFICATION Spec
CONSTANTS
  N = 4
  V = 2
  W = 3
  C = 6
  GN = 5
  FN = 4
  CN = 4
INVARIANTS Feasible Exact Coloured Cliqued Served
CHECK_DEADLOCK FALSE
