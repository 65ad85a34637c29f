SPECIFICATION Spec
CONSTANTS
  Np = 3
  Na = 2
  Nh = 5
  V = 6
  Nv = 6
INVARIANTS Remembered Tiled Steady
CHECK_DEADLOCK FALSE
