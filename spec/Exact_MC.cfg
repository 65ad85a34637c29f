SPECIFICATION Spec
CONSTANTS
  N = 2
  V = 2
  W = 2
  C = 3
  GN = 3
  FN = 2
  CN = 2
INVARIANTS Sound NeverWorse Reaches Wider
PROPERTIES Stays Allowed
CHECK_DEADLOCK FALSE
