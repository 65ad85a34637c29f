INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- XInit
  TFails <- RFails
  TNext <- RNext
CHECK_DEADLOCK FALSE
