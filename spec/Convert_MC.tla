----------------------------- MODULE Convert_MC -----------------------------
(* The two formalisms agree: every execution of a project that finishes leaves a feasible schedule, and every schedule    *)
(* the serial scheme generates can be executed at exactly its dates.  Conversions there and back lose nothing.            *)
EXTENDS Convert, TLC
CONSTANTS NT, MAXD, H0
VARIABLES P, m, x, guide
vars == <<P, m, x, guide>>
N0 == NT + 2
Inner == 2..(NT + 1)
Perms == {p \in [1..NT -> 0..(NT - 1)] : \A a, b \in 1..NT : a # b => p[a] # p[b]}
Md(i, d, u, v) == [id |-> i, dur |-> d, need |-> <<u, v>>, skill |-> <<>>]
One == <<Md(1, 0, 0, 0)>>
Mk(d, u, v, E, c, nr, b) ==
  [N |-> N0, S |-> 0, H |-> H0, nr |-> nr, cap |-> <<[t \in 1..(H0 + MAXD + 1) |-> c], [t \in 1..(H0 + MAXD + 1) |-> b]>>, emp |-> <<>>, byid |-> <<>>, one |-> FALSE,
   modes |-> [k \in 1..N0 |-> IF k \in Inner THEN <<(IF d[k] = 0 THEN Md(1, 0, 0, 0) ELSE Md(1, d[k], u[k], v[k])), Md(2, MAXD, 1, 0)>> ELSE One],
   succ |-> [k \in 1..N0 |-> IF k = 1 THEN SetToSeq(2..N0) ELSE IF k = N0 THEN <<>> ELSE SetToSeq({j \in Inner : <<k, j>> \in E} \cup {N0})]]
Edges == {<<a, b>> \in Inner \X Inner : a < b}
Start0 == [t |-> 0, start |-> Nothing]
Init == /\ \E d \in [Inner -> 0..MAXD], u \in [Inner -> 1..2], v \in [Inner -> 0..1], E \in SUBSET Edges, c \in 1..2, nr \in {{}, {2}}, b \in 1..2 :
              P = Mk(d, u, v, E, c, nr, b)
        /\ m \in [1..NT -> 1..2]
        /\ guide \in {<<>>} \cup Perms /\ x = Start0
Sch == Generated(P, guide, m)
Guided == guide # <<>>
Step == /\ IF Guided
           THEN /\ Sch.ok
                /\ LET K == {k \in Tasks(P) \ Begun(x) : Sch.sch[k].s = x.t} IN
                   IF K = {} THEN x.t < H0 /\ ~Finished(P, m, x) /\ x' = Advance(x)
                   ELSE \E k \in K : Startable(P, m, x, k) /\ x' = StartTask(x, k)
           ELSE \/ \E k \in Tasks(P) : Startable(P, m, x, k) /\ x' = StartTask(x, k)
                \/ x.t < H0 /\ ~Finished(P, m, x) /\ x' = Advance(x)
        /\ UNCHANGED <<P, m, guide>>
Spec == Init /\ [][Step]_vars
Executed == Finished(P, m, x) => LET q == AsSchedule(P, m, x) IN Feasible(P, m, q) /\ Lasting(P, m, q)
Partial == LET q == AsSchedule(P, m, x) IN PrecedenceOK(P, q) /\ CapacityOK(P, m, q)
(* a due task is startable, at the latest once the other due ones without duration have ended *)
Followed == (Guided /\ Sch.ok /\ \E k \in Tasks(P) \ Begun(x) : Sch.sch[k].s <= x.t) =>
              \E k \in Tasks(P) \ Begun(x) : Sch.sch[k].s = x.t /\ Startable(P, m, x, k)
Roundtrip == SameProject(ToProblem(ToDomain(P, TRUE)), P) /\ SameProject(ToDomain(ToProblem(P), FALSE), Cut(P)) /\ SameProject(P, ToDomain(ToProblem(P), FALSE))
=============================================================================
