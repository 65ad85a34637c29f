SPECIFICATION Spec
CONSTANTS
  N = 4
  Costs = {0, 2}
  HMax = 2
  MaxIt = 20
INVARIANT Inv
PROPERTY Termination
CHECK_DEADLOCK FALSE
