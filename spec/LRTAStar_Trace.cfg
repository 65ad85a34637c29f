INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- LInit
  TFails <- LFails
  TNext <- LNext
CHECK_DEADLOCK FALSE
