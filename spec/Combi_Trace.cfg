INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- CInit
  TFails <- CFails
  TNext <- CNext
CHECK_DEADLOCK FALSE
