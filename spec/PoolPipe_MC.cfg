SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Workers = {1, 2}
  JobsPer = 2
  Atomic = TRUE
  Ipc = FALSE
  Lazy = FALSE
INVARIANTS InvOwn InvOnce InvFree InvFlag
PROPERTY Delivered
CHECK_DEADLOCK FALSE
