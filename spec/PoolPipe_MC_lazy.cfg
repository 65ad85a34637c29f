SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Workers = {1, 2}
  JobsPer = 2
  Atomic = TRUE
  Ipc = TRUE
  Lazy = TRUE
INVARIANTS InvOwn InvOnce InvFree InvFlag

CHECK_DEADLOCK FALSE
