INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- AInit
  TFails <- AFails
  TNext <- ANext
CHECK_DEADLOCK FALSE
