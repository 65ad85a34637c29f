INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- XInit
  TFails <- XFails
  TNext <- XNext
CHECK_DEADLOCK FALSE
