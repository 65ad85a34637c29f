SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Workers = {1, 2}
  JobsPer = 3
  Atomic = TRUE
  Ipc = TRUE
  Lazy = FALSE
INVARIANTS InvOwn InvOnce InvFree InvFlag

CHECK_DEADLOCK FALSE
