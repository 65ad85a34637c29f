INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- WInit
  TFails <- WFails
  TNext <- WNext
CHECK_DEADLOCK FALSE
