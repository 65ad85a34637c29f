INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- PInit
  TFails <- PFails
  TNext <- PNext
CHECK_DEADLOCK FALSE
