SPECIFICATION Spec
CONSTANTS
  N = 3
  V = 2
  W = 2
  C = 3
  GN = 4
  FN = 2
  CN = 3
INVARIANTS Sound NeverWorse Reaches Wider
PROPERTIES Stays Allowed
CHECK_DEADLOCK FALSE
