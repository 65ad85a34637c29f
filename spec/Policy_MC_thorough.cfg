SPECIFICATION Spec
CONSTANTS
  NT = 3
  MAXD = 2
  CAP = 2
  TOP = 3
INVARIANTS Legal Ends OnPlan NoMiss Busy NonDelay Nested
CHECK_DEADLOCK FALSE
