SPECIFICATION Spec
CONSTANTS
  N = 5
  DM = 3
  VN = 2
  Q = 3
  PN = 4
  PW = 3
  PH = 2
INVARIANTS Worth Undone Descent Planar Fleet
CHECK_DEADLOCK FALSE
