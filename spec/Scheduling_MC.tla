--------------------------- MODULE Scheduling_MC ---------------------------
(* Exhaustive exploration of the scheduling transition system on a family   *)
(* of small instances that between them use every feature.                  *)
EXTENDS Scheduling, TLC
CONSTANTS Deep
D1(d) == <<<<d, 1>>>>
C(v) == <<v>>
(* diamond 1 -> 2,3 -> 4, one renewable and one non-renewable resource *)
Base == [n |-> 4, m |-> 2, nt |-> 2, nk |-> 0, ren |-> <<TRUE, FALSE>>,
  need |-> << << <<C(0), C(0)>> >>, << <<C(2), C(1)>>, <<C(1), C(2)>> >>, << <<C(1), C(1)>>, <<C(2), C(0)>> >>, << <<C(0), C(0)>> >> >>,
  avail |-> <<C(2), C(3)>>, hor |-> 6,
  preds |-> << <<>>, <<1>>, <<1>>, <<2, 3>> >>,
  dist |-> << <<D1(0)>>, <<D1(1), D1(2)>>, <<D1(2), D1(1)>>, <<D1(0)>> >>,
  conds |-> [k \in 1..4 |-> <<>>], exist |-> [k \in 1..4 |-> <<>>],
  pre |-> [k \in 1..4 |-> FALSE], ret |-> [k \in 1..4 |-> TRUE],
  mk |-> TRUE, cost |-> TRUE, mcost |-> << <<0>>, <<1000, 2000>>, <<0, 500>>, <<0>> >>, ucost |-> <<1000, 0>>,
  rsk |-> <<<<>>, <<>>>>, tsk |-> << <<<<>>>>, <<<<>>, <<>>>>, <<<<>>, <<>>>>, <<<<>>>> >>]
Preempt == [Base EXCEPT !.pre = <<FALSE, TRUE, TRUE, FALSE>>, !.ret = <<TRUE, TRUE, FALSE, TRUE>>, !.avail = <<C(2), C(4)>>]
Varying == [Preempt EXCEPT !.need[2][2] = <<<<1, 2>>, C(1)>>, !.need[3][1] = <<<<2, 1>>, C(0)>>,
                           !.avail[1] = <<2, 2, 1, 2, 2, 1, 2, 2>>]
Uncertain == [Base EXCEPT !.dist[2][1] = <<<<1, 1>>, <<3, 2>>>>, !.dist[3][1] = <<<<0, 1>>, <<2, 3>>>>, !.cost = FALSE]
Conditional == [Uncertain EXCEPT !.conds[2] = <<<< <<1, 1>>, <<2, 3>> >>>>, !.conds[3] = <<<< <<3, 1>>, <<2, 1>> >>, << <<1, 1>>, <<4, 1>> >>>>,
                                 !.exist[4] = <<1, 3>>]
Units == [Base EXCEPT !.m = 4, !.nt = 1, !.nk = 2, !.ren = <<TRUE, TRUE, TRUE, TRUE>>,
  !.avail = <<C(2), C(1), C(1), <<1, 0, 1, 1, 1, 1, 1, 1>>>>,
  !.need = << << <<C(0)>> >>, << <<C(2)>>, <<C(1)>> >>, << <<C(1)>>, <<C(2)>> >>, << <<C(0)>> >> >>,
  !.ucost = <<0, 0, 1000, 0>>, !.rsk = <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<0, 1>>>>,
  !.tsk = << <<<<0, 0>>>>, <<<<1, 1>>, <<2, 0>>>>, <<<<0, 1>>, <<1, 0>>>>, <<<<0, 0>>>> >>]
Instances == <<Base, Preempt, Varying, Uncertain, Conditional, Units>> \o
  (IF Deep THEN <<[Preempt EXCEPT !.hor = 9, !.dist[2] = <<D1(2), D1(3)>>, !.dist[3] = <<D1(3), D1(2)>>],
                  [Conditional EXCEPT !.pre = <<FALSE, TRUE, TRUE, TRUE>>, !.dist[4][1] = <<<<1, 1>>, <<2, 1>>>>, !.hor = 8],
                  [Units EXCEPT !.pre = <<FALSE, TRUE, TRUE, FALSE>>, !.hor = 8, !.dist[2] = <<D1(2), D1(3)>>, !.avail[4] = <<1, 0, 1, 1, 1, 1, 1, 1, 1, 1>>]>> ELSE <<>>)
VARIABLES i, s
Inst == Instances[i]
UnitChoices(k, md) == {u \in SUBSET {r \in Res(Inst) : r > Inst.nt} : SampledOk(Inst, s, [kind |-> "START", task |-> k, mode |-> md, units |-> SetToSeq(u), time |-> FALSE])}
Actions ==
  UNION {IF a.kind = "START" /\ Inst.nk > 0
         THEN {[kind |-> "START", task |-> a.task, mode |-> a.mode, units |-> SetToSeq(u), time |-> FALSE] : u \in UnitChoices(a.task, a.mode)}
         ELSE IF a.kind = "RESUME" /\ Inst.nk > 0
         THEN {[kind |-> "RESUME", task |-> a.task, mode |-> a.mode, units |-> SetToSeq(u), time |-> FALSE] :
                 u \in {u \in SUBSET {r \in Res(Inst) : r > Inst.nt} : SampledOk(Inst, s, [kind |-> "RESUME", task |-> a.task, mode |-> a.mode, units |-> SetToSeq(u), time |-> FALSE])}}
         ELSE {[kind |-> a.kind, task |-> a.task, mode |-> a.mode, units |-> <<>>, time |-> a.kind = "TIME_PR"]} : a \in Offered(Inst, s)}
Init == i \in DOMAIN Instances /\ s = InitState(Instances[i])
Next == /\ ~Terminal(Inst, s)
        /\ \E a \in Actions : LET q == Succ(Inst, s, a) IN \E j \in DOMAIN q : s' = q[j][1]
        /\ UNCHANGED i
InvLifecycle == Lifecycle(Inst, s)
InvPrecedence == Precedence(Inst, s)
InvConserved == Conserved(Inst, s)
InvCapacity == (\A r \in Res(Inst) : Len(Inst.avail[r]) = 1) /\ i # 3 => WithinCapacity(Inst, s)
(* the branches of an action form a probability distribution, and time moves by the action only *)
InvBranches == ~Terminal(Inst, s) => \A a \in Actions :
  LET q == Succ(Inst, s, a)  den == q[1][3] IN
  /\ q # <<>>
  /\ LET f(x) == (q[x][2] * 720) \div q[x][3] IN (\A x \in DOMAIN q : 720 % q[x][3] = 0) => SumTo(f, Len(q)) = 720
  /\ \A x \in DOMAIN q : q[x][1].t = s.t + (IF a.time THEN 1 ELSE 0) /\ Cost(Inst, s, a, q[x][1]) >= 0 - 3000
(* pausing and resuming at one date can go on for ever: at most MaxPauses per task *)
CONSTANT MaxPauses
FewPauses == \A k \in Tasks(Inst) : Len(s.pau[k]) <= MaxPauses
InvGoalTerminal == Goal(Inst, s) => Terminal(Inst, s)
=============================================================================
