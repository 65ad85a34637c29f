INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- MInit
  TFails <- MFails
  TNext <- MNext
CHECK_DEADLOCK FALSE
