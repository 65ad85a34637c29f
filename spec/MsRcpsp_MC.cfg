SPECIFICATION Spec
CONSTANTS
  NT = 2
  MAXD = 2
  H0 = 6
  EMPS = 2
  TOP = 1
INVARIANTS PartPlan OneEach Complete Agrees AgreesNot PooledOK LeftOK
CHECK_DEADLOCK FALSE
