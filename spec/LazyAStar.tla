----------------------------- MODULE LazyAStar -----------------------------
(* The lazy A* planner as a transition system over a finite graph.          *)
(* State of one search: open (set of entries), closed (node -> parent edge, *)
(* 0 for the source), g (best known distance), done.                        *)
EXTENDS GraphBase, TLC
NONE == 0
Search0(gr, src) ==
  [open |-> {[f |-> 0, k |-> 1, n |-> src, d |-> 0, via |-> NONE]}, closed |-> [u \in {} |-> 0],
   g |-> (src :> 0), k |-> 1, end |-> 0, cost |-> INF]
\* entries popped in order of f, ties by insertion counter
Min(open) == CHOOSE e \in open : \A x \in open : e.f < x.f \/ (e.f = x.f /\ e.k <= x.k)
Finished(q) == q.end # 0 \/ q.open = {}
RECURSIVE Push(_, _, _, _, _)
\* push the outgoing edges es (a set of indices, in index order) of the node popped as entry e
Push(gr, h, q, e, es) ==
  IF es = {} THEN q
  ELSE LET i == MinSet(es)  ed == gr.edges[i]  nd == e.d + ed.c
           skip == ed.v \in DOMAIN q.closed \/ (ed.v \in DOMAIN q.g /\ q.g[ed.v] <= nd)
       IN Push(gr, h,
               IF skip THEN q
               ELSE [q EXCEPT !.g = (ed.v :> nd) @@ q.g, !.k = q.k + 1,
                              !.open = q.open \cup {[f |-> nd + h[ed.v], k |-> q.k + 1, n |-> ed.v, d |-> nd, via |-> i]}],
               e, es \ {i})
Pop(gr, h, q) ==
  LET e == Min(q.open)  q1 == [q EXCEPT !.open = q.open \ {e}]
  IN IF gr.goal[e.n] THEN [q1 EXCEPT !.end = e.n, !.cost = e.d,
                                     !.closed = IF e.n \in DOMAIN q.closed THEN q.closed ELSE (e.n :> e.via) @@ q.closed]
     ELSE IF e.n \in DOMAIN q.closed THEN q1
     ELSE Push(gr, h, [q1 EXCEPT !.closed = (e.n :> e.via) @@ q.closed], e, Out(gr, e.n))
RECURSIVE PathTo(_, _, _)
PathTo(gr, q, n) == IF q.closed[n] = NONE THEN <<>>
                    ELSE Append(PathTo(gr, q, gr.edges[q.closed[n]].u), q.closed[n])
RECURSIVE SumC(_, _)
SumC(gr, p) == IF p = <<>> THEN 0 ELSE gr.edges[Head(p)].c + SumC(gr, Tail(p))
(* ---- what a solved planner may answer: defined[u], act[u] (0 = none), util[u] ---- *)
RECURSIVE Follow(_, _, _, _)
\* nodes visited when the answers are followed from u; stops at an undefined or repeated node or at a goal
Follow(gr, a, u, seen) ==
  IF u \in seen \/ ~a.def[u] \/ gr.goal[u] \/ a.act[u] \notin Acts(gr, u) THEN Append(<<>>, u)
  ELSE <<u>> \o Follow(gr, a, EdgeOf(gr, u, a.act[u]).v, seen \cup {u})
RECURSIVE PathCost(_, _, _)
PathCost(gr, a, p) == IF Len(p) <= 1 THEN 0 ELSE EdgeOf(gr, p[1], a.act[p[1]]).c + PathCost(gr, a, Tail(p))
(* the answers allowed after solving from src *)
PlanFails(gr, h, src, a) ==
  LET d == CostToGo(gr)  p == Follow(gr, a, src, {})  last == p[Len(p)]  on == {p[i] : i \in DOMAIN p}
  IN IF d[src] >= INF
     THEN IF \E u \in Nodes(gr) : a.def[u] THEN {"plan.none"} ELSE {}
     ELSE (IF ~a.def[src] THEN {"plan.missing"} ELSE {})
      \cup (IF \E i \in 1..(Len(p) - 1) : a.act[p[i]] \notin Acts(gr, p[i]) THEN {"plan.applicable"} ELSE {})
      \cup (IF ~gr.goal[last] THEN {"plan.goal"} ELSE IF PathCost(gr, a, p) # d[src] THEN {"plan.optimal"} ELSE {})
      \cup (IF gr.goal[last] /\ {u \in Nodes(gr) : a.def[u]} # on THEN {"plan.defined"} ELSE {})
      \cup (IF \E u \in on : a.util[u] # d[u] THEN {"value.remaining"} ELSE {})
ValueFails(gr, h, src, a) ==
  IF \E u \in Nodes(gr) : ~a.def[u] /\ a.util[u] # h[u] THEN {"value.default"} ELSE {}
=============================================================================
