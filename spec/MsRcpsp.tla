------------------------------ MODULE MsRcpsp ------------------------------
(* Project scheduling with employees.  Instance I: as in Rcpsp (I.cap[r] has one entry per date), the modes also have     *)
(* skill[x], the amount of skill x they require; I.emp[w] = [has, val, cal] the employees in the order the problem lists  *)
(* them: the skills they have, how much of them, the dates at which they are present; I.one: a task is staffed by a      *)
(* single employee.  A plan: sch as in Rcpsp, use[k][w] the skills employee w contributes to task k, held[k] the          *)
(* employees task k keeps busy.                                                                                           *)
EXTENDS Rcpsp
Emps(I) == 1..Len(I.emp)
Skills(I) == 1..I.S
Level(I, modes, k, x) == ModeOf(I, modes, k).skill[x]
Required(I, modes, k) == {x \in Skills(I) : Level(I, modes, k, x) > 0}
Given(I, w, x) == IF I.emp[w].has[x] THEN I.emp[w].val[x] ELSE 0
Present(I, w, a, b) == \A t \in a..(b - 1) : I.emp[w].cal[t + 1]
(* --- what a plan must satisfy --- *)
Users(use, k) == IF k \in DOMAIN use THEN DOMAIN use[k] ELSE {}
Staffed(I, modes, use) ==
  \A k \in Tasks(I) : \A x \in Required(I, modes, k) :
     SumOf({w \in Users(use, k) : x \in use[k][w]}, LAMBDA w : Given(I, w, x)) >= Level(I, modes, k, x)
(* what counts are the skills the task requires *)
Skilled(I, modes, use) == \A k \in DOMAIN use : \A w \in DOMAIN use[k] : \A x \in use[k][w] \cap Required(I, modes, k) : I.emp[w].has[x]
Attended(I, sch, use) == \A k \in DOMAIN use : \A w \in DOMAIN use[k] : Present(I, w, sch[k].s, sch[k].e)
Overlap(p, q) == ~(q.s >= p.e \/ p.s >= q.e)
Alone(sch, use) == \A j, k \in DOMAIN use : (j # k /\ Overlap(sch[j], sch[k])) => DOMAIN use[j] \cap DOMAIN use[k] = {}
InTime(I, sch) == \A k \in DOMAIN sch : sch[k].e <= I.H
Workable(I, modes, sch, use) ==
  InTime(I, sch) /\ Feasible(I, modes, sch) /\ Skilled(I, modes, use) /\ Staffed(I, modes, use) /\ Attended(I, sch, use) /\ Alone(sch, use)
(* --- the serial scheme: each task as early as resources and employees allow, with employees in the order of its priorities --- *)
Free(I, g, w, a, b) ==
  Present(I, w, a, b) /\ (a < b => \A j \in DOMAIN g.held : w \in g.held[j] => (g.sch[j].s = g.sch[j].e \/ g.sch[j].e <= a \/ g.sch[j].s >= b))
Candidates(I, modes, g, k, t) == LET C == {w \in Emps(I) : Free(I, g, w, t, t + Dur(I, modes, k))} IN
  IF ~I.one THEN C
  ELSE LET Q == {w \in C : \A x \in Required(I, modes, k) : Given(I, w, x) >= Level(I, modes, k, x)} IN IF Q = {} THEN {} ELSE {Min(Q)}
Covers(I, modes, k, C) == \A x \in Required(I, modes, k) : SumOf(C, LAMBDA w : Given(I, w, x)) >= Level(I, modes, k, x)
PossibleStarts(I, modes, g, k) == LET d == Dur(I, modes, k) IN
  {t \in Earliest(I, g.sch, k)..(I.H - 1 - d) : FitsAt(I, modes, g.sch, k, t) /\ Covers(I, modes, k, Candidates(I, modes, g, k, t))}
(* employees taken: along the priorities, those who can, until the needs are covered *)
Team(I, modes, prio, k, C) ==
  IF Required(I, modes, k) = {} THEN {}
  ELSE LET q == SelectSeq(prio[k - 1], LAMBDA w : w \in C)
           n == Min({m \in 0..Len(q) : Covers(I, modes, k, {q[i] : i \in 1..m})})
       IN {q[i] : i \in 1..n}
Contribution(I, modes, k, T) == LET R == Required(I, modes, k) IN
  [w \in {v \in T : \E x \in R : I.emp[v].has[x]} |-> {x \in R : I.emp[w].has[x]}]
Place(I, modes, prio, g, k, t) ==
  LET T == Team(I, modes, prio, k, Candidates(I, modes, g, k, t)) IN
  [sch |-> Put(g.sch, k, [s |-> t, e |-> t + Dur(I, modes, k)]), held |-> Put(g.held, k, T), use |-> Put(g.use, k, Contribution(I, modes, k, T))]
RECURSIVE Staff(_, _, _, _, _)
Staff(I, modes, prio, rem, g) ==
  IF rem = <<>> THEN [ok |-> TRUE, g |-> g]
  ELSE LET i == FirstReady(I, rem)  T == PossibleStarts(I, modes, g, rem[i]) IN
       IF T = {} THEN [ok |-> FALSE, g |-> g]
       ELSE Staff(I, modes, prio, RemoveAt(rem, i), Place(I, modes, prio, g, rem[i], Min(T)))
Blank == [sch |-> Nothing, use |-> Nothing, held |-> Nothing]
(* the plan a permutation of the tasks, modes and priorities stand for; ok: it exists *)
Plan(I, perm, modes, prio) == LET x == Staff(I, modes, prio, Extended(I, perm), Blank) IN
  [ok |-> x.ok /\ BudgetOK(I, modes), sch |-> x.g.sch, use |-> x.g.use]
(* priorities encoded by one sequence of distinct numbers, one per task and employee: the j-th preferred employee of a task is the one *)
(* whose rank among the identifiers (I.byid: employees by identifier) is the rank of its j-th number *)
Decoded(I, q) == LET E == Len(I.emp) IN
  [i \in 1..(I.N - 2) |-> [j \in 1..E |-> I.byid[Cardinality({m \in 1..E : q[(i - 1) * E + m] <= q[(i - 1) * E + j]})]]]
(* the employees seen as resources: what they offer together *)
Pooled(I, x, t) == SumOf({w \in Emps(I) : I.emp[w].cal[t + 1]}, LAMBDA w : Given(I, w, x))
(* left shift of a plan: tasks in order of start date, each as early as its predecessors, the resources and its own employees allow *)
ByStart(sch) == SetToSortSeq(DOMAIN sch, LAMBDA a, b : sch[a].s < sch[b].s \/ (sch[a].s = sch[b].s /\ a < b))
Clear(I, modes, use, new, k, t, d) ==
  \A u \in t..(t + d - 1) : (\A r \in Res(I) \ I.nr : Usage(I, modes, new, r, u) + Need(I, modes, k, r) <= CapAt(I, r, u))
     /\ \A w \in Users(use, k) : I.emp[w].cal[u + 1] /\ \A j \in DOMAIN new : (w \in Users(use, j)) => ~Running(new, j, u)
RECURSIVE Shift(_, _, _, _, _, _)
Shift(I, modes, use, sch, q, new) ==
  IF q = <<>> THEN new
  ELSE LET k == Head(q)  d == sch[k].e - sch[k].s
           lo == Max({0} \cup {(IF j \in DOMAIN new THEN new[j].e ELSE sch[j].e) : j \in Preds(I, k)})
           T == {t \in lo..sch[k].s : Clear(I, modes, use, new, k, t, d)}
           t0 == IF T = {} THEN sch[k].s ELSE Min(T)
       IN Shift(I, modes, use, sch, Tail(q), Put(new, k, [s |-> t0, e |-> t0 + d]))
LeftShifted(I, modes, use, sch) == Shift(I, modes, use, sch, ByStart(sch), Nothing)
=============================================================================
