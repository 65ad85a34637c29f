INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- RInit
  TFails <- RFails
  TNext <- RNext
CHECK_DEADLOCK FALSE
