SPECIFICATION Spec
CONSTANTS
  N = 4
  KMAX = 2
  STEPS = 3
INVARIANTS WellFormed KindHolds UndoRestores AfterUndo
CHECK_DEADLOCK FALSE
