SPECIFICATION Spec
CONSTANTS
  N = 3
  Costs = {0, 1, 2}
  HMax = 3
INVARIANT Inv
PROPERTY Termination
CHECK_DEADLOCK FALSE
