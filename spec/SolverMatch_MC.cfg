SPECIFICATION Spec
INVARIANT Fresh
PROPERTY Isolated
CONSTANTS
  Solvers = {1, 2, 3}
  Doms = {1, 2}
  Some = {"dynamics", "goals", "memory"}
CHECK_DEADLOCK FALSE
