---------------------------- MODULE Greedy_Trace ----------------------------
EXTENDS Greedy, TraceBase
GInit(tr) == 0
GFails(tr, st, e) == GreedyFails(tr.inst.mdps[e.g], e)
GNext(tr, st, e) == st + 1
=============================================================================
