SPECIFICATION Spec
CONSTANTS
  NS = 3
  V = 7
INVARIANTS Between Quantiles MeanIsEven ValueIsMean SureEnds
CHECK_DEADLOCK FALSE
