------------------------------ MODULE Convert ------------------------------
(* One project seen through two formalisms: a scheduling domain that is executed step by step, and an optimisation       *)
(* problem whose solutions are schedules.  A project P: as in MsRcpsp, with cap[r] and the employees' calendars given for *)
(* the dates 0..P.H; S = 0 and no employees for projects without skills; law (uncertain durations): per task and mode     *)
(* pairs [d, w].  Converting keeps the project, except for what follows.                                                   *)
EXTENDS MsRcpsp
Flat(q) == \A i, j \in DOMAIN q : q[i] = q[j]
Constant(P) == (\A r \in DOMAIN P.cap : Flat(P.cap[r])) /\ \A w \in DOMAIN P.emp : Flat(P.emp[w].cal)
(* the optimisation problem of a domain: the same project, on the dates up to its horizon *)
Cut(P) == [P EXCEPT !.cap = [r \in DOMAIN P.cap |-> SubSeq(P.cap[r], 1, P.H + 1)]]
ToProblem(P) == Cut(P)
(* the domain of an optimisation problem: the same project, or, without varying availabilities, each resource offers its greatest one *)
ToDomain(P, varying) ==
  IF varying THEN P ELSE [P EXCEPT !.cap = [r \in DOMAIN P.cap |-> [t \in DOMAIN P.cap[r] |-> Max(Rng(P.cap[r]))]]]
(* uncertain durations: n more or less, at least 1, evenly; twice the time *)
Spread(d, n, noisy) == IF d = 0 \/ ~noisy THEN {<<d, 1>>}
  ELSE {<<x, Cardinality({i \in (-n)..n : x = (IF d + i < 1 THEN 1 ELSE d + i)})>> : x \in {IF d + i < 1 THEN 1 ELSE d + i : i \in (-n)..n}}
SameWork(P, Q) == \* tasks, modes, needs, order
  /\ P.N = Q.N /\ P.S = Q.S
  /\ DOMAIN P.modes = DOMAIN Q.modes /\ \A k \in DOMAIN P.modes : /\ Len(P.modes[k]) = Len(Q.modes[k])
       /\ \A i \in DOMAIN P.modes[k] : P.modes[k][i].id = Q.modes[k][i].id /\ P.modes[k][i].need = Q.modes[k][i].need /\ P.modes[k][i].skill = Q.modes[k][i].skill
  /\ DOMAIN P.succ = DOMAIN Q.succ /\ \A k \in DOMAIN P.succ : Rng(P.succ[k]) = Rng(Q.succ[k])
SameDurations(P, Q) == \A k \in DOMAIN P.modes : \A i \in DOMAIN P.modes[k] : P.modes[k][i].dur = Q.modes[k][i].dur
SameCap(P, Q) == DOMAIN P.cap = DOMAIN Q.cap /\ \A r \in DOMAIN P.cap : Len(Q.cap[r]) > P.H /\ \A t \in 1..(P.H + 1) : P.cap[r][t] = Q.cap[r][t]
SameStaff(P, Q) == DOMAIN P.emp = DOMAIN Q.emp /\ \A w \in DOMAIN P.emp : /\ \A x \in 1..P.S : Given(P, w, x) = Given(Q, w, x)
       /\ Len(Q.emp[w].cal) > P.H /\ \A t \in 1..(P.H + 1) : P.emp[w].cal[t] = Q.emp[w].cal[t]
SameProject(P, Q) == SameWork(P, Q) /\ SameDurations(P, Q) /\ P.H = Q.H /\ P.nr = Q.nr /\ SameCap(P, Q) /\ SameStaff(P, Q)
(* --- execution of a project without skills and calendars: state [t, start, fin]; start dates of the tasks started --- *)
Begun(x) == DOMAIN x.start
Ended(P, m, x, k) == k \in Begun(x) /\ x.start[k] + Dur(P, m, k) <= x.t
InUse(P, m, x, r) == SumOf({k \in Begun(x) : ~Ended(P, m, x, k) \/ r \in P.nr}, LAMBDA k : Need(P, m, k, r))
Startable(P, m, x, k) ==
  /\ k \notin Begun(x) /\ \A j \in Preds(P, k) : Ended(P, m, x, j)
  /\ \A r \in Res(P) : InUse(P, m, x, r) + Need(P, m, k, r) <= P.cap[r][1]
StartTask(x, k) == [x EXCEPT !.start = Put(@, k, x.t)]
Advance(x) == [x EXCEPT !.t = @ + 1]
Finished(P, m, x) == \A k \in Tasks(P) : Ended(P, m, x, k)
AsSchedule(P, m, x) == [k \in Begun(x) |-> [s |-> x.start[k], e |-> x.start[k] + Dur(P, m, k)]]
=============================================================================
