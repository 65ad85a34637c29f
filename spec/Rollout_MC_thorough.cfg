INIT Init
NEXT Next
CONSTANTS
  Maxes = {0, 1, 2, 3}
  Episodes = 3
CONSTRAINT Bounded
INVARIANTS InvEpisodes InvAction InvStop InvOneStart InvMem
CHECK_DEADLOCK FALSE
