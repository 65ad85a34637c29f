----------------------------- MODULE MsRcpsp_MC -----------------------------
(* The staffing scheme, one task at a time, on every small project: each partial plan is workable, the result is the one *)
(* the recursive definition gives, is feasible for the pooled resources, and no task could start earlier with the        *)
(* employees free at that time.                                                                                         *)
EXTENDS MsRcpsp, TLC
CONSTANTS NT, MAXD, H0, EMPS, TOP
VARIABLES I, perm, prio, rem, g, ok
vars == <<I, perm, prio, rem, g, ok>>
N0 == NT + 2
Inner == 2..(NT + 1)
Perms(n, lo) == {p \in [1..n -> lo..(lo + n - 1)] : \A a, b \in 1..n : a # b => p[a] # p[b]}
One == [id |-> 1, dur |-> 0, need |-> <<0>>, skill |-> <<0>>]
Mk(d, u, v, E, emp, one) == [N |-> N0, S |-> 1, H |-> H0, nr |-> {}, cap |-> <<[t \in 1..(H0 + 1) |-> 1]>>, emp |-> emp, byid |-> [w \in 1..EMPS |-> w], one |-> one,
  modes |-> [k \in 1..N0 |-> IF k \in Inner THEN <<[id |-> 1, dur |-> d[k], need |-> <<u[k]>>, skill |-> <<v[k]>>]>> ELSE <<One>>],
  succ |-> [k \in 1..N0 |-> IF k = 1 THEN SetToSeq(2..N0) ELSE IF k = N0 THEN <<>> ELSE SetToSeq({j \in Inner : <<k, j>> \in E} \cup {N0})]]
Edges == {<<a, b>> \in Inner \X Inner : a < b}
Cals == {[t \in 1..(H0 + 1) |-> TRUE], [t \in 1..(H0 + 1) |-> t # 2], [t \in 1..(H0 + 1) |-> t > 2]}
Emp == {[has |-> <<h>>, val |-> <<x>>, cal |-> c] : h \in {TRUE, FALSE}, x \in 1..TOP, c \in Cals}
ones == [k \in 1..NT |-> 1]
Init == /\ \E d \in [Inner -> 1..MAXD], u \in [Inner -> 0..1], v \in [Inner -> 0..TOP], E \in SUBSET Edges, emp \in [1..EMPS -> Emp], one \in {TRUE, FALSE} :
             I = Mk(d, u, v, E, emp, one)
        /\ perm \in Perms(NT, 0) /\ prio \in [1..NT -> Perms(EMPS, 1)] /\ rem = Extended(I, perm) /\ g = Blank /\ ok = TRUE
Step == /\ ok /\ rem # <<>>
        /\ LET i == FirstReady(I, rem)  k == rem[i]  T == PossibleStarts(I, ones, g, k) IN
             IF T = {} THEN ok' = FALSE /\ UNCHANGED <<rem, g>>
             ELSE ok' = TRUE /\ rem' = RemoveAt(rem, i) /\ g' = Place(I, ones, prio, g, k, Min(T))
        /\ UNCHANGED <<I, perm, prio>>
Spec == Init /\ [][Step]_vars
Done == ok /\ rem = <<>>
PartPlan == /\ PrecedenceOK(I, g.sch) /\ CapacityOK(I, ones, g.sch) /\ Lasting(I, ones, g.sch) /\ InTime(I, g.sch)
            /\ Skilled(I, ones, g.use) /\ Attended(I, g.sch, g.use) /\ Alone(g.sch, g.use)
            /\ \A k \in DOMAIN g.sch : \A x \in Required(I, ones, k) : SumOf({w \in DOMAIN g.use[k] : x \in g.use[k][w]}, LAMBDA w : Given(I, w, x)) >= Level(I, ones, k, x)
OneEach == I.one => \A k \in DOMAIN g.use : Cardinality(DOMAIN g.use[k]) <= 1
Complete == Done => Workable(I, ones, g.sch, g.use)
Agrees == Done => LET p == Plan(I, perm, ones, prio) IN p.ok /\ p.sch = g.sch /\ p.use = g.use
AgreesNot == ~ok => ~Plan(I, perm, ones, prio).ok
PooledOK == Done => \A t \in 0..(H0 - 1) : SumOf({k \in DOMAIN g.sch : Running(g.sch, k, t)}, LAMBDA k : Level(I, ones, k, 1)) <= Pooled(I, 1, t)
LeftOK == Done => LET n == LeftShifted(I, ones, g.use, g.sch) IN Workable(I, ones, n, g.use) /\ \A k \in DOMAIN n : n[k].s <= g.sch[k].s
=============================================================================
