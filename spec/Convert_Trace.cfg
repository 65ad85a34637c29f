INIT TraceInit
NEXT TraceNext
VIEW TraceView
CONSTANTS
  TInit <- VInit
  TFails <- VFails
  TNext <- VNext
CHECK_DEADLOCK FALSE
