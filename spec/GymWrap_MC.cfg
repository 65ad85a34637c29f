SPECIFICATION Spec
CONSTANTS
  Np = 3
  Na = 2
  Nh = 4
  V = 4
  Nv = 5
INVARIANTS Remembered Tiled Steady
CHECK_DEADLOCK FALSE
