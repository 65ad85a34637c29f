SPECIFICATION Spec
CONSTANTS
  N = 4
  Costs = {0, 1, 3}
  HMax = 2
  MaxIt = 20
INVARIANT Inv
PROPERTY Termination
CHECK_DEADLOCK FALSE
