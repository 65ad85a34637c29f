------------------------------- MODULE Rcpsp -------------------------------
(* Resource constrained project scheduling.                                *)
(* Instance I: tasks 1..I.N (1 the source, I.N the sink); I.modes[k] the   *)
(* modes of task k, records [id, dur, need] with need[r] per resource;     *)
(* I.cap[r][t+1] capacity at time t (one entry when constant); I.nr the    *)
(* resources that are consumed for good; I.succ[k] successors; I.H the     *)
(* horizon.  A schedule is a function from tasks to [s, e].                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Tasks(I) == 1..I.N
Res(I) == 1..Len(I.cap)
Rng(q) == {q[k] : k \in DOMAIN q}
CapAt(I, r, t) == IF Len(I.cap[r]) = 1 THEN I.cap[r][1] ELSE I.cap[r][t + 1]
Preds(I, k) == {j \in Tasks(I) : k \in Rng(I.succ[j])}
SumOf(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
(* mode of task k: the one chosen for it, mode 1 when it has no such mode; the dummy tasks have one mode *)
ModeOf(I, modes, k) ==
  LET want == IF k = 1 \/ k = I.N THEN 1 ELSE modes[k - 1]
      have == {m \in DOMAIN I.modes[k] : I.modes[k][m].id = want}
  IN IF have # {} THEN I.modes[k][CHOOSE m \in have : TRUE]
     ELSE I.modes[k][CHOOSE m \in DOMAIN I.modes[k] : I.modes[k][m].id = 1]
(* modes a task does not have are replaced for good *)
Norm(I, modes) == [i \in DOMAIN modes |-> ModeOf(I, modes, i + 1).id]
Dur(I, modes, k) == ModeOf(I, modes, k).dur
Need(I, modes, k, r) == ModeOf(I, modes, k).need[r]
(* --- what a schedule must satisfy --- *)
Running(sch, k, t) == sch[k].s <= t /\ t < sch[k].e
Usage(I, modes, sch, r, t) == SumOf({k \in DOMAIN sch : Running(sch, k, t)}, LAMBDA k : Need(I, modes, k, r))
PrecedenceOK(I, sch) == \A j \in DOMAIN sch : \A k \in Rng(I.succ[j]) \cap DOMAIN sch : sch[k].s >= sch[j].e
CapacityOK(I, modes, sch) ==
  \A k \in DOMAIN sch : \A t \in sch[k].s..(sch[k].e - 1) : \A r \in Res(I) : Usage(I, modes, sch, r, t) <= CapAt(I, r, t)
BudgetOK(I, modes) == \A r \in I.nr : SumOf(Tasks(I), LAMBDA k : Need(I, modes, k, r)) <= CapAt(I, r, 0)
Lasting(I, modes, sch) == \A k \in DOMAIN sch : sch[k].e = sch[k].s + Dur(I, modes, k)
Feasible(I, modes, sch) == PrecedenceOK(I, sch) /\ CapacityOK(I, modes, sch) /\ BudgetOK(I, modes)
(* --- the serial generation scheme: always the first task of the list whose predecessors are scheduled, as early as it fits --- *)
FirstReady(I, rem) == CHOOSE k \in DOMAIN rem : Preds(I, rem[k]) \cap Rng(rem) = {}
                        /\ \A m \in 1..(k - 1) : Preds(I, rem[m]) \cap Rng(rem) # {}
Earliest(I, sch, k) == LET P == Preds(I, k) \cap DOMAIN sch IN IF P = {} THEN 0 ELSE Max({sch[p].e : p \in P})
FitsAt(I, modes, sch, k, t) ==
  \A u \in t..(t + Dur(I, modes, k) - 1) : u < I.H /\ \A r \in Res(I) \ I.nr : Usage(I, modes, sch, r, u) + Need(I, modes, k, r) <= CapAt(I, r, u)
Starts(I, modes, sch, k) == {t \in Earliest(I, sch, k)..I.H : FitsAt(I, modes, sch, k, t)}
Put(sch, k, v) == [x \in DOMAIN sch \cup {k} |-> IF x = k THEN v ELSE sch[x]]
RECURSIVE Serial(_, _, _, _)
Serial(I, modes, rem, sch) ==
  IF rem = <<>> THEN [ok |-> TRUE, sch |-> sch]
  ELSE LET i == FirstReady(I, rem)
           k == rem[i]
           d == Dur(I, modes, k)
           T == IF d = 0 THEN {Earliest(I, sch, k)} ELSE Starts(I, modes, sch, k)
       IN IF T = {} THEN [ok |-> FALSE, sch |-> sch]
          ELSE LET t == Min(T) IN Serial(I, modes, RemoveAt(rem, i), Put(sch, k, [s |-> t, e |-> t + d]))
(* the list of all tasks for a permutation of 0..N-3 *)
Extended(I, perm) == <<1>> \o [k \in DOMAIN perm |-> perm[k] + 2] \o <<I.N>>
Nothing == [x \in {} |-> 0]
(* the schedule a permutation and modes stand for; ok: it exists *)
Generated(I, perm, modes) ==
  LET g == Serial(I, modes, Extended(I, perm), Nothing) IN [ok |-> g.ok /\ BudgetOK(I, modes), sch |-> g.sch]
(* no task could start earlier, all others unmoved *)
Active(I, modes, sch) ==
  \A k \in DOMAIN sch : \A t \in 0..(sch[k].s - 1) :
    LET moved == [sch EXCEPT ![k] = [s |-> t, e |-> t + Dur(I, modes, k)]] IN
    ~(PrecedenceOK(I, moved) /\ CapacityOK(I, modes, moved))
Makespan(I, sch) == sch[I.N].e
(* reserve: mean over resources of the mean share of free capacity until the makespan, times makespan, number and product of capacities *)
ProdOf(S, f(_)) == FoldSet(LAMBDA x, acc : f(x) * acc, 1, S)
Reserve(I, modes, sch) ==
  SumOf(Res(I), LAMBDA r : SumOf(0..(Makespan(I, sch) - 1), LAMBDA t : I.cap[r][1] - Usage(I, modes, sch, r, t))
                            * ProdOf(Res(I) \ {r}, LAMBDA q : I.cap[q][1]))
=============================================================================
