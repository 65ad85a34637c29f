------------------------------ MODULE Rcpsp_MC ------------------------------
(* The serial scheme, one task at a time, on every small project: each partial schedule is feasible, the result is *)
(* active and is the one the recursive definition gives; some permutation reaches the best makespan of all feasible  *)
(* schedules; the scheme run on the tasks sorted by start date gives a schedule back that is nowhere later.           *)
EXTENDS Rcpsp, TLC
CONSTANTS NT, MAXD, MAXC, H0
VARIABLES I, perm, rem, sch, ok
vars == <<I, perm, rem, sch, ok>>
N0 == NT + 2
Inner == 2..(NT + 1)
Perms == {p \in [1..NT -> 0..(NT - 1)] : \A a, b \in 1..NT : a # b => p[a] # p[b]}
One == [id |-> 1, dur |-> 0, need |-> <<0>>]
Mk(d, u, E, cap) == [N |-> N0, H |-> H0, nr |-> {}, cap |-> <<cap>>,
  modes |-> [k \in 1..N0 |-> IF k \in Inner THEN <<[id |-> 1, dur |-> d[k], need |-> <<u[k]>>]>> ELSE <<One>>],
  succ |-> [k \in 1..N0 |-> IF k = 1 THEN SetToSeq(2..N0) ELSE IF k = N0 THEN <<>> ELSE SetToSeq({j \in Inner : <<k, j>> \in E} \cup {N0})]]
Edges == {<<a, b>> \in Inner \X Inner : a < b}
Caps == {<<c>> : c \in 1..MAXC} \cup {[t \in 1..H0 |-> IF t \in {2, 3} THEN c ELSE MAXC] : c \in 0..1}
ones == [k \in 1..NT |-> 1]
Init == /\ \E d \in [Inner -> 0..MAXD], u \in [Inner -> 0..2], E \in SUBSET Edges, cap \in Caps : I = Mk(d, u, E, cap)
        /\ perm \in Perms /\ rem = Extended(I, perm) /\ sch = Nothing /\ ok = TRUE
Step == /\ ok /\ rem # <<>>
        /\ LET i == FirstReady(I, rem)  k == rem[i]  d == Dur(I, ones, k)
               T == IF d = 0 THEN {Earliest(I, sch, k)} ELSE Starts(I, ones, sch, k)
           IN IF T = {} THEN ok' = FALSE /\ UNCHANGED <<rem, sch>>
              ELSE ok' = TRUE /\ rem' = RemoveAt(rem, i) /\ sch' = Put(sch, k, [s |-> Min(T), e |-> Min(T) + d])
        /\ UNCHANGED <<I, perm>>
Spec == Init /\ [][Step]_vars
Done == ok /\ rem = <<>>
PartFeasible == PrecedenceOK(I, sch) /\ CapacityOK(I, ones, sch) /\ Lasting(I, ones, sch)
Agrees == Done => LET g == Generated(I, perm, ones) IN g.ok /\ g.sch = sch
AgreesNot == ~ok => ~Generated(I, perm, ones).ok
ActiveDone == Done => Active(I, ones, sch)
(* sorted by start date *)
SortedPerm == LET q == SortSeq([k \in 1..NT |-> k + 1], LAMBDA a, b : sch[a].s < sch[b].s \/ (sch[a].s = sch[b].s /\ (sch[a].e < sch[b].e \/ (sch[a].e = sch[b].e /\ a < b))))
              IN [k \in 1..NT |-> q[k] - 2]
Stable == Done => LET g == Generated(I, SortedPerm, ones) IN g.ok /\ \A k \in 1..N0 : g.sch[k].s <= sch[k].s
(* some permutation is optimal: compared with every assignment of start dates *)
AllStarts == [Inner -> 0..H0]
Full(st) == LET m == Max({st[k] + Dur(I, ones, k) : k \in Inner}) IN
  [k \in 1..N0 |-> IF k = 1 THEN [s |-> 0, e |-> 0] ELSE IF k = N0 THEN [s |-> m, e |-> m] ELSE [s |-> st[k], e |-> st[k] + Dur(I, ones, k)]]
Short(f) == f[N0].e <= H0
Best == {Makespan(I, Full(st)) : st \in {x \in AllStarts : Short(Full(x)) /\ Feasible(I, ones, Full(x))}}
Reached == {g.sch[N0].e : g \in {x \in {Generated(I, p, ones) : p \in Perms} : x.ok}}
FirstPerm == \A k \in 1..NT : perm[k] = k - 1
Optimal == (rem = Extended(I, perm) /\ FirstPerm) => (IF Best = {} THEN Reached = {} ELSE Reached # {} /\ Min(Best) = Min(Reached))
=============================================================================
