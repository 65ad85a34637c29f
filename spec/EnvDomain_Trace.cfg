INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- EInit
  TFails <- EFails
  TNext <- ENext
CHECK_DEADLOCK FALSE
