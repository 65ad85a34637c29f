SPECIFICATION Spec
CONSTANTS
  N = 3
  Costs = {0, 1}
  HMax = 2
INVARIANT Inv
PROPERTY Termination
CHECK_DEADLOCK FALSE
