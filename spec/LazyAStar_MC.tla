---------------------------- MODULE LazyAStar_MC ----------------------------
(* Exhaustive: every graph on N nodes with at most one edge per ordered pair *)
(* and costs in Costs, every goal set, every consistent integer heuristic.   *)
EXTENDS LazyAStar
CONSTANTS N, Costs, HMax
VARIABLES gr, h, q
vars == <<gr, h, q>>
Pairs == {<<u, v>> \in (1..N) \X (1..N) : u # v}
RECURSIVE SeqOf(_, _)
SeqOf(S, f) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE p \in S : \A y \in S : p[1] * 10 + p[2] <= y[1] * 10 + y[2]
                    IN <<[u |-> x[1], a |-> x[2], v |-> x[2], c |-> f[x]]>> \o SeqOf(S \ {x}, f)
Graphs == {[n |-> N, edges |-> SeqOf({p \in Pairs : f[p] >= 0}, f), goal |-> [i \in 1..N |-> i \in G]] :
             f \in [Pairs -> Costs \cup {-1}], G \in (SUBSET (1..N)) \ {{}}}
Init == /\ gr \in Graphs
        /\ h \in {hh \in [1..N -> 0..HMax] : Consistent(gr, hh)}
        /\ q = Search0(gr, 1)
Next == /\ ~Finished(q)
        /\ q' = Pop(gr, h, q)
        /\ UNCHANGED <<gr, h>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* a closed node's recorded distance is optimal from the source (consistency)
ClosedSound == \A u \in DOMAIN q.closed : q.g[u] = SumC(gr, PathTo(gr, q, u))
Optimal == q.end # 0 => /\ q.cost = CostToGo(gr)[1]
                        /\ SumC(gr, PathTo(gr, q, q.end)) = q.cost
Complete == (Finished(q) /\ q.end = 0) => CostToGo(gr)[1] >= INF
\* the answers a planner derives from the finished search satisfy the specification of answers
Answers == LET p == IF q.end = 0 THEN <<>> ELSE PathTo(gr, q, q.end)
               on == IF q.end = 0 THEN {} ELSE {1, q.end} \cup {gr.edges[p[i]].u : i \in DOMAIN p}
               d == CostToGo(gr)
               g(u) == q.g[u]
           IN [def |-> [u \in 1..N |-> u \in on],
               act |-> [u \in 1..N |-> IF u \in on /\ \E i \in DOMAIN p : gr.edges[p[i]].u = u
                                       THEN gr.edges[p[CHOOSE i \in DOMAIN p : gr.edges[p[i]].u = u]].a ELSE 0],
               util |-> [u \in 1..N |-> IF u \in on THEN q.cost - g(u) ELSE h[u]]]
AnswersSound == Finished(q) => PlanFails(gr, h, 1, Answers) \cup ValueFails(gr, h, 1, Answers) = {}
Inv == ClosedSound /\ Optimal /\ Complete /\ AnswersSound
Termination == <>Finished(q)
=============================================================================
