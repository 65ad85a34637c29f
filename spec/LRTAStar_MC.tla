---------------------------- MODULE LRTAStar_MC ----------------------------
EXTENDS LRTAStar
CONSTANTS N, Costs, HMax, MaxIt
VARIABLES gr, h, q
Pairs == {<<u, v>> \in (1..N) \X (1..N) : u < v}
RECURSIVE SeqOf(_, _)
SeqOf(S, f) == IF S = {} THEN <<>>
               ELSE LET x == CHOOSE p \in S : \A y \in S : p[1] * 10 + p[2] <= y[1] * 10 + y[2]
                    IN <<[u |-> x[1], a |-> x[2], v |-> x[2], c |-> f[x]]>> \o SeqOf(S \ {x}, f)
Graphs == {[n |-> N, edges |-> SeqOf({p \in Pairs : f[p] >= 0}, f), goal |-> [i \in 1..N |-> i \in G]] :
             f \in [Pairs -> Costs \cup {-1}], G \in {{N}, {N - 1, N}, {1}}}
Init == /\ gr \in Graphs
        /\ h \in {hh \in [1..N -> 0..HMax] : Admissible(gr, hh)}
        /\ q = Start(1)
Next == ~q.fin /\ q' \in Steps(gr, h, 1, q, MaxIt) /\ UNCHANGED <<gr, h>>
Spec == Init /\ [][Next]_<<gr, h, q>> /\ WF_<<gr, h, q>>(Next)
\* learned values never exceed the optimal cost-to-go (acyclic graphs)
Adm == LET d == CostToGo(gr) IN \A u \in DOMAIN q.val : q.val[u] <= d[u]
Ans == [def |-> [u \in 1..N |-> u \in DOMAIN q.pol], act |-> [u \in 1..N |-> IF u \in DOMAIN q.pol THEN q.pol[u] ELSE 0],
        util |-> [u \in 1..N |-> Val(h, q, u)]]
Sound == q.fin => AnswerFails(gr, h, 1, Ans) = {}
NotExhausted == CostToGo(gr)[1] < INF => q.it <= MaxIt
Inv == Adm /\ Sound /\ NotExhausted
Termination == <>(q.fin)
=============================================================================
