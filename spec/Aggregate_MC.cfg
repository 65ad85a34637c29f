SPECIFICATION Spec
CONSTANTS
  NS = 2
  V = 4
INVARIANTS Between Quantiles MeanIsEven ValueIsMean SureEnds
CHECK_DEADLOCK FALSE
