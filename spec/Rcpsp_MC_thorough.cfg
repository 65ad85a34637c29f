SPECIFICATION Spec
CONSTANTS
  NT = 3
  MAXD = 2
  MAXC = 2
  H0 = 4
INVARIANTS PartFeasible Agrees AgreesNot ActiveDone Stable Optimal
CHECK_DEADLOCK FALSE
