INIT Init
NEXT Next
CONSTANTS
  Maxes = {0, 1, 2}
  Episodes = 2
CONSTRAINT Bounded
INVARIANTS InvEpisodes InvAction InvStop InvOneStart InvMem
CHECK_DEADLOCK FALSE
