------------------------------ MODULE LRTAStar ------------------------------
(* Learning real-time A*: repeated greedy trials from the source; every      *)
(* visited node's value becomes the best one-step estimate; successors       *)
(* already on the current roll are not considered; a node without candidate  *)
(* is a dead end (value INF).                                                *)
EXTENDS GraphBase, TLC
\* q.val: learned values (partial), q.cur/q.roll: current trial, q.chg: a value changed in this trial
Val(h, q, u) == IF u \in DOMAIN q.val THEN q.val[u] ELSE h[u]
Start(src) == [val |-> [u \in {} |-> 0], cur |-> src, roll |-> <<src>>, way |-> <<>>, chg |-> FALSE,
               best |-> INF, pol |-> [u \in {} |-> 0], it |-> 0, fin |-> FALSE]
Cands(gr, h, q) == {i \in Out(gr, q.cur) : /\ \A k \in DOMAIN q.roll : q.roll[k] # gr.edges[i].v
                                           /\ Plus(gr.edges[i].c, Val(h, q, gr.edges[i].v)) < INF}
Est(gr, h, q, i) == Plus(gr.edges[i].c, Val(h, q, gr.edges[i].v))
RECURSIVE SumE(_, _)
SumE(gr, p) == IF p = <<>> THEN 0 ELSE gr.edges[Head(p)].c + SumE(gr, Tail(p))
(* end of a trial: adopt a strictly better path, stop when nothing was learned *)
EndTrial(gr, h, src, q, dead, maxit) ==
  LET cost == Plus(SumE(gr, q.way), Val(h, q, q.cur))
      better == ~dead /\ cost < q.best
      pol2 == IF better THEN [u \in {gr.edges[q.way[k]].u : k \in DOMAIN q.way} |->
                                gr.edges[q.way[CHOOSE k \in DOMAIN q.way : gr.edges[q.way[k]].u = u]].a]
                             @@ (q.cur :> 0) @@ q.pol
              ELSE q.pol
  IN [q EXCEPT !.best = IF better THEN cost ELSE q.best, !.pol = pol2,
               !.fin = ~q.chg \/ q.it + 1 > maxit, !.it = q.it + 1,
               !.cur = src, !.roll = <<src>>, !.way = <<>>, !.chg = FALSE]
(* one action of the search: the set of possible successors (ties) *)
Steps(gr, h, src, q, maxit) ==
  IF gr.goal[q.cur] THEN {EndTrial(gr, h, src, q, FALSE, maxit)}
  ELSE LET c == Cands(gr, h, q) IN
    IF c = {} THEN {EndTrial(gr, h, src, [q EXCEPT !.val = (q.cur :> INF) @@ q.val, !.chg = TRUE], TRUE, maxit)}
    ELSE LET m == MinSet({Est(gr, h, q, i) : i \in c}) IN
         {[q EXCEPT !.chg = @ \/ Val(h, q, q.cur) # m \/ q.cur \notin DOMAIN q.val,
                    !.val = (q.cur :> m) @@ q.val, !.cur = gr.edges[i].v,
                    !.roll = Append(q.roll, gr.edges[i].v), !.way = Append(q.way, i)] :
            i \in {j \in c : Est(gr, h, q, j) = m}}
(* ---- answers after a solve: def, act, util ---- *)
RECURSIVE Follow(_, _, _, _)
Follow(gr, a, u, seen) ==
  IF u \in seen \/ ~a.def[u] \/ gr.goal[u] \/ a.act[u] \notin Acts(gr, u) THEN <<u>>
  ELSE <<u>> \o Follow(gr, a, EdgeOf(gr, u, a.act[u]).v, seen \cup {u})
RECURSIVE PathCost(_, _, _)
PathCost(gr, a, p) == IF Len(p) <= 1 THEN 0 ELSE EdgeOf(gr, p[1], a.act[p[1]]).c + PathCost(gr, a, Tail(p))
AnswerFails(gr, h, src, a) ==
  LET d == CostToGo(gr)  p == Follow(gr, a, src, {})  last == p[Len(p)]
      dag == Acyclic(gr)
      legal(u) == a.def[u] => (a.act[u] \in Acts(gr, u) \/ (gr.goal[u] /\ a.act[u] = 0))
      reach == Reach(gr, src)
  IN (IF \E u \in Nodes(gr) : ~legal(u) THEN {"lrta.applicable"} ELSE {})
   \cup (IF \E u \in Nodes(gr) : a.def[u] /\ u \notin reach THEN {"lrta.stale"} ELSE {})
   \cup (IF a.def[src] /\ ~gr.goal[last] THEN {"lrta.goal"} ELSE {})
   \cup (IF \E u \in Nodes(gr) \ reach : a.util[u] # h[u] THEN {"lrta.stalevalue"} ELSE {})
   \cup (IF dag /\ \E u \in Nodes(gr) : a.util[u] > d[u] THEN {"lrta.admissible"} ELSE {})
   \cup (IF dag /\ \E u \in Nodes(gr) : a.util[u] < h[u] /\ Consistent(gr, h) THEN {"lrta.monotone"} ELSE {})
   \cup (IF dag /\ d[src] < INF /\ ~a.def[src] THEN {"lrta.missing"} ELSE {})
   \cup (IF dag /\ d[src] < INF /\ gr.goal[last] /\ PathCost(gr, a, p) # d[src] THEN {"lrta.optimal"} ELSE {})
   \cup (IF dag /\ d[src] < INF /\ a.util[src] # d[src] THEN {"lrta.value"} ELSE {})
=============================================================================
