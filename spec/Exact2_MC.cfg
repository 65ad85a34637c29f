SPECIFICATION Spec
CONSTANTS
  n = 3
  D = 2
  C = 1
  R = 1
INVARIANTS Kept Prompt Listed LeastOK DatesOK TightOK NotSooner NotStuck
CHECK_DEADLOCK FALSE
