--------------------------- MODULE LazyAStar_Trace ---------------------------
EXTENDS LazyAStar, TraceBase
LInit(tr) == 0
LFails(tr, st, e) ==
  LET gr == tr.inst.graphs[e.g]  h == tr.inst.h[e.g]
      d == CostToGo(gr)
  IN IF e.w = 2 THEN PlanFails(gr, h, e.src, e) \cup ValueFails(gr, h, e.src, e)
     ELSE \* inflated heuristic: a plan within the declared factor, values not constrained
       LET p == Follow(gr, e, e.src, {})  last == p[Len(p)] IN
       IF d[e.src] >= INF THEN If(~\E u \in Nodes(gr) : e.def[u], "plan.none")
       ELSE If(e.def[e.src], "plan.missing")
         \cup If(gr.goal[last] /\ \A i \in 1..(Len(p) - 1) : e.act[p[i]] \in Acts(gr, p[i]), "plan.goal")
         \cup If(gr.goal[last] => 2 * PathCost(gr, e, p) <= e.w * d[e.src], "plan.bound")
         \cup If(gr.goal[last] => {u \in Nodes(gr) : e.def[u]} = {p[i] : i \in DOMAIN p}, "plan.defined")
LNext(tr, st, e) == st + 1
=============================================================================
