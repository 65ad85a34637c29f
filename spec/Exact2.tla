------------------------------- MODULE Exact2 -------------------------------
(* Solvers of scheduling problems: those that decide the least makespan    *)
(* under side constraints, and the parallel generation scheme.             *)
(* A side constraint c is [k, a, b, d]: what it says of tasks a and b.     *)
EXTENDS Rcpsp
Keeps(I, modes, sch, c) ==
  CASE c.k = "at" -> sch[c.a].s = c.d
    [] c.k = "before" -> sch[c.a].s <= sch[c.b].s
    [] c.k = "together" -> sch[c.a].s = sch[c.b].s
    [] c.k = "after" -> sch[c.b].s >= sch[c.a].s + c.d
    [] c.k = "endplus" -> sch[c.b].s >= sch[c.a].e + c.d
    [] c.k = "atend" -> sch[c.b].s = sch[c.a].e
    [] c.k = "mode" -> ModeOf(I, modes, c.a).id = c.d
(* the modes that can be chosen: of the task, together within the budgets *)
Owned(I, modes) == Len(modes) = I.N - 2 /\ \A i \in DOMAIN modes : \E m \in DOMAIN I.modes[i + 1] : I.modes[i + 1][m].id = modes[i]
RECURSIVE Choices_(_, _)
Choices_(I, k) == IF k = I.N THEN {<<>>} ELSE {<<I.modes[k][m].id>> \o q : m \in DOMAIN I.modes[k], q \in Choices_(I, k + 1)}
Settings(I) == {q \in Choices_(I, 2) : BudgetOK(I, q)}
(* those no task of which asks for more than there ever is *)
Opening(I) == {q \in Settings(I) : \A k \in Tasks(I), r \in Res(I) \ I.nr : Need(I, q, k, r) <= Max(Rng(I.cap[r]))}
(* the last moment the capacities speak of *)
Known(I, r, u) == Len(I.cap[r]) = 1 \/ u < Len(I.cap[r])
Room(I, modes, sch, k, t) ==
  \A u \in t..(t + Dur(I, modes, k) - 1) : \A r \in Res(I) \ I.nr : Known(I, r, u) /\ Usage(I, modes, sch, r, u) + Need(I, modes, k, r) <= CapAt(I, r, u)
(* some schedule that keeps all of P ends by T *)
RECURSIVE Reach(_, _, _, _, _, _)
Reach(I, P, modes, rem, sch, T) ==
  IF rem = <<>> THEN TRUE
  ELSE LET i == FirstReady(I, rem) k == rem[i] d == Dur(I, modes, k) IN
       \E t \in Earliest(I, sch, k)..(T - d) :
         /\ Room(I, modes, sch, k, t)
         /\ LET next == Put(sch, k, [s |-> t, e |-> t + d]) IN
            /\ \A c \in P : (c.a \in DOMAIN next /\ c.b \in DOMAIN next) => Keeps(I, modes, next, c)
            /\ Reach(I, P, modes, RemoveAt(rem, i), next, T)
All(I) == [k \in Tasks(I) |-> k]
Reachable(I, P, T) == \E q \in Settings(I) : Reach(I, P, q, All(I), Nothing, T)
(* what a schedule must be to be handed out *)
Sound(I, P, modes, sch) == Lasting(I, modes, sch) /\ Feasible(I, modes, sch) /\ \A c \in P : Keeps(I, modes, sch, c)
(* --- the parallel scheme: nothing waits for room it has --- *)
NonDelay(I, modes, sch) ==
  \A k \in DOMAIN sch : \A t \in Earliest(I, sch, k)..(sch[k].s - 1) :
    \E r \in Res(I) \ I.nr : Usage(I, modes, sch, r, t) + Need(I, modes, k, r) > CapAt(I, r, t)
(* tasks in the order they were started; j could surely have been started in place of k: ready before, and room beside all that had been started and not ended before *)
Overlooked(I, modes, sch, order, i, j) ==
  LET k == order[i] t == sch[k].s
      beside == {x \in DOMAIN sch : (x \in {order[m] : m \in 1..(i - 1)}) /\ sch[x].e >= t} IN
  /\ \A p \in Preds(I, order[j]) : sch[p].e < t \/ (p = 1)
  /\ \A r \in Res(I) \ I.nr : SumOf(beside, LAMBDA x : Need(I, modes, x, r)) + Need(I, modes, order[j], r) <= CapAt(I, r, t)
RECURSIVE After(_, _, _)
After(I, S, n) == IF n = 0 THEN S ELSE After(I, S \cup UNION {Rng(I.succ[k]) : k \in S}, n - 1)
Followers(I, k) == Cardinality(After(I, Rng(I.succ[k]), I.N))
Prefers(I, modes, rule, list, j, k) ==
  CASE rule = "succ" -> Followers(I, j) > Followers(I, k)
    [] rule = "fast" -> Dur(I, modes, j) < Dur(I, modes, k)
    [] rule = "list" -> \E a, b \in DOMAIN list : list[a] = j /\ list[b] = k /\ a < b
    [] OTHER -> FALSE
ByRule(I, modes, sch, order, rule, list) ==
  \A i \in DOMAIN order, j \in DOMAIN order : (i < j /\ Prefers(I, modes, rule, list, order[j], order[i])) => ~Overlooked(I, modes, sch, order, i, j)
(* --- the critical path: dates that hold whatever the resources are --- *)
Quickest(I, k) == Min({I.modes[k][m].dur : m \in DOMAIN I.modes[k]})
Latest(S) == IF S = {} THEN 0 ELSE Max(S)
RECURSIVE Early(_, _)
Early(I, k) == Latest({Early(I, p) + Quickest(I, p) : p \in Preds(I, k)})
RECURSIVE Late(_, _)
Late(I, k) == IF I.succ[k] = <<>> THEN Early(I, k) ELSE Min({Late(I, s) - Quickest(I, s) : s \in Rng(I.succ[k])})
IsPath(I, q) == q # <<>> /\ q[1] = 1 /\ q[Len(q)] = I.N /\ \A i \in 2..Len(q) : q[i] \in Rng(I.succ[q[i - 1]])
Length(I, q) == SumOf(DOMAIN q, LAMBDA i : Quickest(I, q[i]))
(* no task alone could be moved earlier *)
Without(sch, k) == [x \in DOMAIN sch \ {k} |-> sch[x]]
Tight(I, modes, sch) == \A k \in DOMAIN sch : \A t \in Earliest(I, sch, k)..(sch[k].s - 1) : ~Room(I, modes, Without(sch, k), k, t)
=============================================================================
