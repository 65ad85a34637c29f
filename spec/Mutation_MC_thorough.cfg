SPECIFICATION Spec
CONSTANTS
  N = 5
  KMAX = 2
  STEPS = 3
INVARIANTS WellFormed KindHolds UndoRestores AfterUndo
CHECK_DEADLOCK FALSE
