SPECIFICATION Spec
CONSTANTS
  N = 3
INVARIANT Inv
PROPERTY Termination
CHECK_DEADLOCK FALSE
