-------------------------- MODULE GraphExplore_MC --------------------------
EXTENDS GraphExplore
CONSTANT N
VARIABLES m, x
One(v) == <<[v |-> v, w |-> 2, c |-> 1]>>
Two(v, u) == <<[v |-> v, w |-> 1, c |-> 1], [v |-> u, w |-> 1, c |-> 0]>>
RowChoices == {<<>>} \cup {<<[a |-> 1, outs |-> One(v)]>> : v \in 1..N}
              \cup {<<[a |-> 1, outs |-> One(v)], [a |-> 2, outs |-> Two(u, (u % N) + 1)]>> : v \in 1..N, u \in 1..N}
Init == /\ m \in [n : {N}, init : {1}, stopterm : BOOLEAN, acts : [1..N -> RowChoices],
                  goal : {[i \in 1..N |-> i = N], [i \in 1..N |-> i = 1], [i \in 1..N |-> FALSE]},
                  term : {[i \in 1..N |-> i = 2], [i \in 1..N |-> FALSE]}]
        /\ x = X0(m)
Next == \E u \in x.todo : x' = Expand(m, x, u) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, x>> /\ WF_<<m, x>>(Next)
Inv == Sound(m, x) /\ (x.todo = {} => x = Full(m))
Termination == <>(x.todo = {})
=============================================================================
