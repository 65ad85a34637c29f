----------------------------- MODULE Exact2_MC -----------------------------
(* The parallel scheme on every small project, beside the least makespan.  *)
EXTENDS Exact2
CONSTANTS n, D, C, R
VARIABLES I, now, sch, order, busy
v == <<I, now, sch, order, busy>>
N == n + 2
Mode(d, q) == <<[id |-> 1, dur |-> d, need |-> q]>>
Zero == [r \in 1..R |-> 0]
Edges == {<<a, b>> \in (2..(N - 1)) \X (2..(N - 1)) : a < b}
Instances == {[N |-> N, H |-> 99, cst |-> TRUE, nr |-> {}, cap |-> [r \in 1..R |-> <<C>>],
               modes |-> [k \in 1..N |-> IF k \in {1, N} THEN Mode(0, Zero) ELSE Mode(dd[k], qq[k])],
               succ |-> [k \in 1..N |-> IF k = N THEN <<>> ELSE IF k = 1 THEN [x \in 1..(N - 1) |-> x + 1]
                                        ELSE SetToSeq({b \in 2..(N - 1) : <<k, b>> \in E}) \o <<N>>]]
              : dd \in [2..(N - 1) -> 1..D], qq \in [2..(N - 1) -> [1..R -> 0..C]], E \in SUBSET Edges}
Ones == [i \in 1..n |-> 1]
Init == I \in Instances /\ now = 0 /\ sch = Put(Nothing, 1, [s |-> 0, e |-> 0]) /\ order = <<>> /\ busy = {}
Possible == {k \in Tasks(I) \ DOMAIN sch : (\A p \in Preds(I, k) : p \in DOMAIN sch /\ sch[p].e <= now)
                                            /\ \A r \in 1..R : Usage(I, Ones, sch, r, now) + Need(I, Ones, k, r) <= C}
Start(k) == /\ k \in Possible /\ sch' = Put(sch, k, [s |-> now, e |-> now + Dur(I, Ones, k)])
            /\ order' = Append(order, k) /\ busy' = busy \cup {k} /\ UNCHANGED <<I, now>>
Advance == /\ Possible = {} /\ DOMAIN sch # Tasks(I)
           /\ LET later == {sch[k].e : k \in busy} IN later # {} /\ now' = Min(later)
           /\ busy' = {k \in busy : sch[k].e > now'} /\ UNCHANGED <<I, sch, order>>
Next == (\E k \in Tasks(I) : Start(k)) \/ Advance
Spec == Init /\ [][Next]_v
Done == DOMAIN sch = Tasks(I)
Perms == {p \in [1..n -> 0..(n - 1)] : \A a, b \in 1..n : a # b => p[a] # p[b]}
Least == Min({Makespan(I, Generated(I, p, Ones).sch) : p \in Perms})
(* whatever is started is sound and never waits for room it has *)
Kept == CapacityOK(I, Ones, sch) /\ PrecedenceOK(I, sch) /\ Lasting(I, Ones, sch)
Prompt == Done => NonDelay(I, Ones, sch) /\ Feasible(I, Ones, sch)
(* the list of the starts itself is always a rule that was followed *)
Listed == Done => ByRule(I, Ones, sch, order, "list", order)
(* the least makespan is that of a serial schedule; no parallel one ends sooner *)
LeastOK == order = <<>> => Reachable(I, {}, Least) /\ ~Reachable(I, {}, Least - 1)
NotSooner == Done => Makespan(I, sch) >= Least
Critical(k) == Late(I, k) = Early(I, k) + Quickest(I, k)
(* nothing starts before its earliest date; without slack those dates make a path as long as the project *)
DatesOK == /\ Done => Makespan(I, sch) >= Early(I, N)
           /\ order = <<>> => /\ \A k \in Tasks(I) : Late(I, k) >= Early(I, k) + Quickest(I, k)
                              /\ Early(I, N) <= Least
                              /\ \A k \in Tasks(I) \ {N} : Critical(k) => \E x \in Rng(I.succ[k]) : Critical(x) /\ Early(I, x) = Early(I, k) + Quickest(I, k)
                              /\ Critical(1)
(* a serial schedule leaves nothing to move *)
TightOK == order = <<>> => \A p \in Perms : Tight(I, Ones, Generated(I, p, Ones).sch)
(* the scheme gets to the end *)
NotStuck == Done \/ ENABLED Next
=============================================================================
