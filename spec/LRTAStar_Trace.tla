--------------------------- MODULE LRTAStar_Trace ---------------------------
EXTENDS LRTAStar, TraceBase
LInit(tr) == 0
LFails(tr, st, e) == AnswerFails(tr.inst.graphs[e.g], tr.inst.h[e.g], e.src, e)
LNext(tr, st, e) == st + 1
=============================================================================
