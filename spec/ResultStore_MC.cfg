SPECIFICATION Spec
CONSTANTS
  NIDS = 3
  VALS = {0, 1, 2}
  DIMS = {1, 2}
  MAXLEN = 3
INVARIANTS BestOK FirstOK RankOK FrontOK BestOnFront ExtremesOK DominanceOrder
CHECK_DEADLOCK FALSE
