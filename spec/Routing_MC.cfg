SPECIFICATION Spec
CONSTANTS
  N = 5
  DM = 2
  VN = 2
  Q = 2
  PN = 4
  PW = 2
  PH = 2
INVARIANTS Worth Undone Descent Planar Fleet
CHECK_DEADLOCK FALSE
