------------------------------- MODULE Policy -------------------------------
(* Scheduling policies: which action is issued in a state of a scheduling   *)
(* domain (Scheduling, instance I without conditional tasks).               *)
(* P.rule:                                                                  *)
(*  "gantt"  starts a task planned for the current date                     *)
(*  "ready"  the first startable task of the permutation                    *)
(*  "strict" (also precedence first) the first precedence-ready task of the *)
(*           permutation, or those planned for the same date as it          *)
(*  "time"   those planned at most P.dt after it                            *)
(*  "index"  those at most P.di places after it                             *)
(*  "most", "sample", "fast", "any"  greedy choices among startable tasks   *)
(* P.perm all tasks in order; P.mode[k]; P.crew[k] units for the task;      *)
(* P.sch[k] planned start, or P.sch = <<>> without plan; P.go whether time   *)
(* passes with each start (policies of other makers, under a meta policy).   *)
EXTENDS Scheduling, TLC

Ready(I, s) == {k \in In(s, I, "rem") : \A p \in ToSetOf(I.preds[k]) : s.st[p] = "done"}
StartP(P, k) == [kind |-> "START", task |-> k, mode |-> P.mode[k], time |-> P.go, units |-> P.crew[k]]
TimeP == [kind |-> "TIME_PR", task |-> None, mode |-> None, time |-> TRUE, units |-> <<>>]
CanP(I, P, s, k) == CanApply(I, s, k, P.mode[k], ToSetOf(P.crew[k]))

RECURSIVE Below(_, _)
Below(I, k) == LET D == {j \in Tasks(I) : k \in ToSetOf(I.preds[j])} IN D \cup UNION {Below(I, j) : j \in D}
Plan(P, k) == IF P.sch = <<>> THEN 0 ELSE P.sch[k]
Place(P, k) == CHOOSE i \in DOMAIN P.perm : P.perm[i] = k

(* precedence-ready tasks in the order of the permutation, and those the rule considers *)
InOrder(I, P, s) == LET R == Ready(I, s) IN SelectSeq(P.perm, LAMBDA k : k \in R)
Considered(I, P, s) ==
  LET q == InOrder(I, P, s) IN
  IF q = <<>> THEN q ELSE
  LET f == Head(q)
      near(k) ==
        CASE P.rule = "ready"  -> TRUE
          [] P.rule = "strict" -> k = f \/ (P.sch # <<>> /\ P.sch[k] = P.sch[f])
          [] P.rule = "time"   -> k = f \/ (P.sch # <<>> /\ P.sch[f] <= P.sch[k] /\ P.sch[k] <= P.sch[f] + P.dt)
          [] P.rule = "index"  -> Place(P, k) <= Place(P, f) + P.di
  IN SelectSeq(q, near)
Greedy(I, P, s) ==
  LET S == {k \in Ready(I, s) : CanP(I, P, s, k)}
      b(k) == Cardinality(Below(I, k))
      d(k) == I.dist[k][P.mode[k]][1][1] IN
  CASE P.rule = "most"   -> {k \in S : \A j \in S : b(j) <= b(k)}
    [] P.rule = "fast"   -> IF \E k \in Tasks(I) : Len(I.dist[k][P.mode[k]]) > 1 THEN S   \* a duration is drawn for each
                            ELSE {k \in S : \A j \in S : d(j) >= d(k)}
    [] P.rule = "sample" -> IF \E k \in S : b(k) > 0 THEN {k \in S : b(k) > 0} ELSE S
    [] P.rule = "any"    -> S
(* the tasks that may be started now *)
StartsOf(I, P, s) ==
  IF P.rule = "gantt" THEN {k \in Ready(I, s) : P.sch[k] = s.t /\ CanP(I, P, s, k)}
  ELSE IF P.rule \in {"ready", "strict", "time", "index"} THEN
    LET q == SelectSeq(Considered(I, P, s), LAMBDA k : CanP(I, P, s, k)) IN IF q = <<>> THEN {} ELSE {Head(q)}
  ELSE Greedy(I, P, s)
Answers(I, P, s) == IF StartsOf(I, P, s) = {} THEN {TimeP} ELSE {StartP(P, k) : k \in StartsOf(I, P, s)}
Deterministic(P) == P.rule \in {"ready", "strict", "time", "index"}

(* an execution under the policy, to the end; deterministic durations *)
RECURSIVE Play(_, _, _)
Play(I, P, s) ==
  IF Terminal(I, s) THEN s
  ELSE CHOOSE z \in {Play(I, P, x) : x \in {Force(Succ(I, s, a)[1][1]) : a \in {CHOOSE a \in Answers(I, P, s) : TRUE}}} : TRUE   \* values, not delayed terms

(* every task can be run alone: constant renewable availabilities *)
Modest(I, P) ==
  /\ \A r \in Res(I) : I.ren[r] /\ Len(I.avail[r]) = 1
  /\ \A k \in Tasks(I) : /\ \A r \in Types(I) : I.need[k][P.mode[k]][r] # <<>> /\ Need(I, k, P.mode[k], r, 0) <= I.avail[r][1] /\ Len(I.need[k][P.mode[k]][r]) = 1
                         /\ I.exist[k] = <<>> /\ ~I.pre[k]
                         /\ LET use == [r \in Res(I) |-> IF r \in ToSetOf(P.crew[k]) THEN 1 ELSE 0] IN Skilled(I, k, P.mode[k], use)
MaxDur(I, k, md) == LET q == I.dist[k][md] IN CHOOSE d \in {q[i][1] : i \in DOMAIN q} : \A i \in DOMAIN q : q[i][1] <= d
Roomy(I, P) == LET f(k) == MaxDur(I, k, P.mode[k]) IN SumOver(f, Tasks(I)) <= I.hor
(* the plan itself is a schedule of the instance: needs, crews and availabilities at every date *)
Steady(I, P) ==
  \A k \in Tasks(I) : /\ \A r \in Types(I) : Len(I.need[k][P.mode[k]][r]) = 1
                      /\ I.exist[k] = <<>>
                      /\ LET use == [r \in Res(I) |-> IF r \in ToSetOf(P.crew[k]) THEN 1 ELSE 0] IN Skilled(I, k, P.mode[k], use)
PlanFits(I, P, dur(_)) ==
  /\ Steady(I, P)
  /\ \A k \in Tasks(I) : \A p \in ToSetOf(I.preds[k]) : P.sch[p] + dur(p) <= P.sch[k]
  /\ \A k \in Tasks(I) : P.sch[k] >= 0 /\ P.sch[k] + dur(k) <= I.hor
  /\ \A t \in 0..I.hor : \A r \in Res(I) :
        LET on(k) == IF ~I.ren[r] \/ (P.sch[k] <= t /\ t < P.sch[k] + dur(k))
                     THEN (IF r <= I.nt THEN Need(I, k, P.mode[k], r, 0) ELSE IF r \in ToSetOf(P.crew[k]) THEN 1 ELSE 0) ELSE 0
            sum == SumOver(on, Tasks(I))
        IN sum > 0 => sum <= AvailAt(I, r, t)
  /\ \A k \in Tasks(I) : dur(k) = 0 => (\A r \in Types(I) : Need(I, k, P.mode[k], r, 0) = 0) /\ P.crew[k] = <<>>
(* with these durations the policy completes the project *)
Completes(I, P, dur(_)) ==
  IF P.rule = "gantt" THEN PlanFits(I, P, dur) ELSE Modest(I, P) /\ Roomy(I, P)
=============================================================================
