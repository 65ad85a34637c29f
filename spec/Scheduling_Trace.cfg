INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- SInit
  TFails <- SFails
  TNext <- SNext
CHECK_DEADLOCK FALSE
