-------------------------- MODULE GraphExplore_Trace --------------------------
EXTENDS GraphExplore, TraceBase
XInit(tr) == 0
XFails(tr, st, e) == IF e.op = "graph" THEN GraphFails(tr.inst.m, e) ELSE DomainFails(tr.inst.m, e)
XNext(tr, st, e) == st + 1
=============================================================================
