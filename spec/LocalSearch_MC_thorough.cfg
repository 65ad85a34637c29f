SPECIFICATION Spec
CONSTANTS
  CONTENTS = 3
  VALUES = {0, 1, 2}
  STEPS = 4
INVARIANTS CurrentTrue BestTrue StoreTrue BestOfAll KeepsAll HillStaysBest
CHECK_DEADLOCK FALSE
