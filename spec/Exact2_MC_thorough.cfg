SPECIFICATION Spec
CONSTANTS
  n = 3
  D = 3
  C = 2
  R = 1
INVARIANTS Kept Prompt Listed LeastOK DatesOK TightOK NotSooner NotStuck
CHECK_DEADLOCK FALSE
