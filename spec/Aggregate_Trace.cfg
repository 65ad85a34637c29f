INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- GInit
  TFails <- GFails
  TNext <- GNext
CHECK_DEADLOCK FALSE
