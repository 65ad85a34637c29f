----------------------------- MODULE Scheduling -----------------------------
(* Scheduling domains of scikit-decide: tasks with modes, precedence,       *)
(* preemption, renewable and non-renewable resources (constant or varying   *)
(* needs and availability), individual resource units with skills,          *)
(* uncertain durations and tasks conditioned on outcomes.                   *)
(*                                                                          *)
(* Instance I:  n tasks 1..n, m resources of which 1..nt are types and the  *)
(* others units; ren[r]; need[t][mode][r] = needs over active time (one     *)
(* entry when constant); avail[r][date+1]; preds[t]; dist[t][mode] =        *)
(* <<duration, weight>> pairs; conds[t] = list of distributions of          *)
(* <<condition, weight>>; exist[t] = conditions the task waits for; pre[t]  *)
(* preemptive; ret[t] non-renewables given back on pause; mk/cost           *)
(* objectives, mcost[t][mode], ucost[r]; rsk[r][k], tsk[t][mode][k] skills. *)
(*                                                                          *)
(* State s: date t; per task st, mode, dur (drawn duration), start, end,    *)
(* pau/res (dates of pauses and resumptions), held[t][r] resources held;    *)
(* per resource used and av; conds the set of observed conditions.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

None == -1

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOver(f, S \ {x})

Tasks(I) == 1..I.n
Res(I) == 1..I.m
Types(I) == 1..I.nt
ModesOf(I, k) == DOMAIN I.need[k]
ToSetOf(q) == {q[i] : i \in DOMAIN q}

Need(I, k, md, r, x) ==
  IF r > I.nt THEN 0
  ELSE LET q == I.need[k][md][r] IN IF Len(q) = 1 THEN q[1] ELSE q[x + 1]
AvailAt(I, r, d) == LET q == I.avail[r] IN IF Len(q) = 1 THEN q[1] ELSE q[d + 1]

(* time the task has been running, up to the current date *)
Act(s, k) ==
  IF s.start[k] = None THEN 0
  ELSE LET e == IF s.end[k] # None THEN s.end[k] ELSE s.t
           f(i) == (IF i <= Len(s.res[k]) THEN s.res[k][i] ELSE e) - s.pau[k][i]
       IN e - s.start[k] - SumTo(f, Len(s.pau[k]))

In(s, I, x) == {k \in Tasks(I) : s.st[k] = x}

(* ---- what an action uses, and whether it can be applied ----------------- *)
ToUse(I, s, k, md, units) == [r \in Res(I) |-> IF r \in units THEN 1 ELSE Need(I, k, md, r, Act(s, k))]
FitsTypes(I, s, k, md) == \A r \in Types(I) : s.av[r] - s.used[r] - Need(I, k, md, r, Act(s, k)) >= 0
Skilled(I, k, md, use) ==
  \A q \in 1..I.nk : LET f(r) == IF use[r] > 0 THEN I.rsk[r][q] ELSE 0
                     IN I.tsk[k][md][q] > 0 => SumTo(f, I.m) >= I.tsk[k][md][q]
CanApply(I, s, k, md, units) ==
  LET use == ToUse(I, s, k, md, units)
  IN (\A r \in Res(I) : (r <= I.nt \/ r \in units) => use[r] <= s.av[r] - s.used[r]) /\ Skilled(I, k, md, use)

Available(I, s) == {k \in Tasks(I) : ToSetOf(I.exist[k]) \subseteq s.conds}
PredsDone(I, s, k) == \A p \in ToSetOf(I.preds[k]) \cap Available(I, s) : s.st[p] = "done"
Overconsuming(I, s) == \E r \in Res(I) : s.used[r] > s.av[r]

(* ---- offered actions ----------------------------------------------------- *)
A(kind, k, md) == [kind |-> kind, task |-> k, mode |-> md]
Startable(I, s) == {<<k, md>> \in UNION {{<<k, md>> : md \in ModesOf(I, k)} : k \in In(s, I, "rem")} :
                      PredsDone(I, s, k) /\ FitsTypes(I, s, k, md)}
Resumable(I, s) == {k \in In(s, I, "pau") : PredsDone(I, s, k) /\ FitsTypes(I, s, k, s.mode[k])}
OfferPause(I, s) == {A("PAUSE", k, None) : k \in {k \in In(s, I, "run") : I.pre[k]}}
OfferStart(I, s) == IF Overconsuming(I, s) THEN {} ELSE {A("START", x[1], x[2]) : x \in Startable(I, s)}
OfferResume(I, s) == IF Overconsuming(I, s) THEN {} ELSE {A("RESUME", k, s.mode[k]) : k \in Resumable(I, s)}
OfferTime == {A("TIME_PR", None, None)}
Offered(I, s) == OfferPause(I, s) \cup OfferStart(I, s) \cup OfferResume(I, s) \cup OfferTime

(* A sampled action of a domain with individual units. *)
SampledOk(I, s, a) ==
  LET units == ToSetOf(a.units) IN
  CASE a.kind = "TIME_PR" -> a.time /\ units = {}
    [] a.kind = "PAUSE"   -> A("PAUSE", a.task, None) \in OfferPause(I, s) /\ ~a.time
    [] a.kind = "START"   -> /\ A("START", a.task, a.mode) \in OfferStart(I, s) /\ ~a.time
                             /\ units \cap Types(I) = {}
                             /\ CanApply(I, s, a.task, a.mode, units)
    [] a.kind = "RESUME"  -> /\ A("RESUME", a.task, a.mode) \in OfferResume(I, s) /\ ~a.time
                             /\ units \cap Types(I) = {}
                             /\ CanApply(I, s, a.task, a.mode, units)
(* Start actions for which the free units suffice. *)
UnitsSuffice(I, s, k, md) ==
  LET free == {r \in Res(I) : r > I.nt /\ s.used[r] + 1 <= s.av[r]}
  IN \A q \in 1..I.nk : LET f(r) == IF r \in free THEN I.rsk[r][q] ELSE 0
                        IN I.tsk[k][md][q] > 0 => SumTo(f, I.m) >= I.tsk[k][md][q]

Goal(I, s) == In(s, I, "rem") = {} /\ In(s, I, "run") = {} /\ In(s, I, "pau") = {}
AllPossible(I, s) ==
  \A k \in In(s, I, "rem") : \E md \in ModesOf(I, k) :
    \A r \in Types(I) : ~I.ren[r] => s.av[r] - s.used[r] >= Need(I, k, md, r, 0)
Terminal(I, s) == s.t > I.hor \/ ~AllPossible(I, s) \/ Goal(I, s)

(* ---- transitions ---------------------------------------------------------- *)
Zero(I) == [r \in Res(I) |-> 0]
Pause(I, s, a) ==
  IF a.kind # "PAUSE" THEN s ELSE
  LET k == a.task IN
  [s EXCEPT !.st[k] = "pau", !.held[k] = Zero(I), !.pau[k] = Append(@, s.t),
            !.used = [r \in Res(I) |-> @[r] - (IF I.ren[r] \/ I.ret[k] THEN s.held[k][r] ELSE 0)]]
Resume(I, s, a) ==
  IF a.kind # "RESUME" THEN s ELSE
  LET k == a.task  md == IF a.mode = None THEN s.mode[k] ELSE a.mode
      units == ToSetOf(a.units)  use == ToUse(I, s, k, md, units) IN
  IF ~CanApply(I, s, k, md, units) THEN s ELSE
  [s EXCEPT !.st[k] = "run", !.held[k] = use, !.res[k] = Append(@, s.t),
            !.used = [r \in Res(I) |-> @[r] + use[r]]]
StartOk(I, s, a) == a.kind = "START" /\ CanApply(I, s, a.task, a.mode, ToSetOf(a.units))
Start(I, s, a, d) ==
  LET k == a.task  use == ToUse(I, s, k, a.mode, ToSetOf(a.units)) IN
  [s EXCEPT !.st[k] = "run", !.mode[k] = a.mode, !.start[k] = s.t, !.dur[k] = d, !.held[k] = use,
            !.used = [r \in Res(I) |-> @[r] + use[r]]]
(* tasks K complete at date d: renewable resources are given back *)
Complete(I, s, K, d) ==
  [s EXCEPT !.st = [k \in Tasks(I) |-> IF k \in K THEN "done" ELSE @[k]],
            !.end = [k \in Tasks(I) |-> IF k \in K THEN d ELSE @[k]],
            !.held = [k \in Tasks(I) |-> IF k \in K THEN Zero(I) ELSE @[k]],
            !.used = [r \in Res(I) |-> @[r] - (LET f(k) == IF I.ren[r] THEN s.held[k][r] ELSE 0 IN SumOver(f, K))]]
(* the same state with its functions evaluated (TLC delays them) *)
Force(s) ==
  [t |-> s.t, st |-> TLCEval(s.st), mode |-> TLCEval(s.mode), dur |-> TLCEval(s.dur), start |-> TLCEval(s.start), end |-> TLCEval(s.end),
   pau |-> TLCEval(s.pau), res |-> TLCEval(s.res), held |-> TLCEval([k \in DOMAIN s.held |-> TLCEval(s.held[k])]),
   used |-> TLCEval(s.used), av |-> TLCEval(s.av), conds |-> s.conds]
(* branches are <<state, weight, denominator>> *)
SumW(q) == LET f(i) == q[i][2] IN SumTo(f, Len(q))
Draw1(b, dist) ==
  [i \in DOMAIN dist |-> <<[b[1] EXCEPT !.conds = @ \cup {dist[i][1]}], b[2] * dist[i][2], b[3] * SumW(dist)>>]
RECURSIVE DrawAll(_, _)
DrawAll(bs, dists) ==
  IF dists = <<>> THEN bs
  ELSE DrawAll(FlattenSeq([i \in DOMAIN bs |-> Draw1(bs[i], Head(dists))]), Tail(dists))
CondsOf(I, K) == FlattenSeq([k \in Tasks(I) |-> IF k \in K THEN I.conds[k] ELSE <<>>])
Reveal(I, s) ==
  [s EXCEPT !.st = [k \in Tasks(I) |-> IF @[k] = "out" /\ k \in Available(I, s) THEN "rem" ELSE @[k]]]
(* one unit of time *)
Due(I, s) == {k \in In(s, I, "run") : Act(s, k) + 1 >= s.dur[k]}
TickFrom(I, s, K, c) ==
  LET act(k) == Act(s, k) + 1
      now(k, r) == IF r <= I.nt THEN Need(I, k, s.mode[k], r, act(k)) ELSE c.held[k][r]
      run == In(c, I, "run")
  IN [state |-> [c EXCEPT !.t = @ + 1,
          !.held = [k \in Tasks(I) |-> IF k \in run THEN [r \in Res(I) |-> now(k, r)] ELSE @[k]],
          !.used = [r \in Res(I) |-> @[r] + (LET f(k) == now(k, r) - c.held[k][r] IN SumOver(f, run))],
          !.av = [r \in Res(I) |-> AvailAt(I, r, s.t + 1)]],
      done |-> K]
Tick(I, s) ==  \* the sets of one element have TLC evaluate their element once
  CHOOSE y \in {TickFrom(I, s, x[1], x[2]) : x \in {<<K, Force(Complete(I, s, K, s.t + 1))>> : K \in {Due(I, s)}}} : TRUE
Started(I, s, a) ==
  IF ~StartOk(I, s, a) THEN <<[b |-> <<s, 1, 1>>, done |-> {}]>>
  ELSE LET dist == I.dist[a.task][a.mode] IN
       [i \in DOMAIN dist |->
          LET x == Start(I, s, a, dist[i][1]) IN
          IF dist[i][1] = 0 THEN [b |-> <<Complete(I, x, {a.task}, s.t), dist[i][2], SumW(dist)>>, done |-> {a.task}]
          ELSE [b |-> <<x, dist[i][2], SumW(dist)>>, done |-> {}]]
Finish(I, a, y) ==
  LET bs == DrawAll(<<y.b>>, CondsOf(I, y.done)) IN
  IF ~a.time THEN bs
  ELSE FlattenSeq([i \in DOMAIN bs |->
         LET tk == Tick(I, bs[i][1]) IN DrawAll(<<<<tk.state, bs[i][2], bs[i][3]>>>>, CondsOf(I, tk.done))])
Succ(I, s, a) ==
  LET s1 == Resume(I, Pause(I, s, a), a)
      st == Started(I, s1, a)
      bs == FlattenSeq([i \in DOMAIN st |-> Finish(I, a, st[i])])
  IN [i \in DOMAIN bs |-> <<Reveal(I, bs[i][1]), bs[i][2], bs[i][3]>>]

(* cost of a transition, in thousandths *)
Cost(I, s, a, s2) ==
  LET dt == s2.t - s.t
      f(r) == IF I.ren[r] THEN I.ucost[r] * s.used[r] * dt ELSE 1000 * (s2.used[r] - s.used[r])
  IN (IF I.mk THEN 1000 * dt ELSE 0)
     + (IF I.cost THEN (IF a.kind = "START" THEN I.mcost[a.task][a.mode] ELSE 0) + SumTo(f, I.m) ELSE 0)

InitState(I) ==
  [t |-> 0,
   st |-> [k \in Tasks(I) |-> IF I.exist[k] = <<>> THEN "rem" ELSE "out"],
   mode |-> [k \in Tasks(I) |-> None], dur |-> [k \in Tasks(I) |-> None],
   start |-> [k \in Tasks(I) |-> None], end |-> [k \in Tasks(I) |-> None],
   pau |-> [k \in Tasks(I) |-> <<>>], res |-> [k \in Tasks(I) |-> <<>>],
   held |-> [k \in Tasks(I) |-> Zero(I)], used |-> Zero(I),
   av |-> [r \in Res(I) |-> AvailAt(I, r, 0)], conds |-> {}]

(* ---- properties of every reachable state -------------------------------- *)
Lifecycle(I, s) ==
  \A k \in Tasks(I) :
    /\ (s.st[k] \in {"rem", "out"}) = (s.start[k] = None)
    /\ (s.st[k] = "done") = (s.end[k] # None)
    /\ s.st[k] = "done" => Act(s, k) = s.dur[k]
    /\ s.st[k] \in {"run", "pau"} => Act(s, k) < s.dur[k]
    /\ Len(s.pau[k]) = Len(s.res[k]) + (IF s.st[k] = "pau" THEN 1 ELSE 0)
    /\ s.st[k] # "out" <=> k \in Available(I, s)
Precedence(I, s) ==
  \A k \in Tasks(I) : s.start[k] # None =>
    \A p \in ToSetOf(I.preds[k]) : I.exist[p] = <<>> => s.end[p] # None /\ s.end[p] <= s.start[k]
Conserved(I, s) ==
  /\ \A r \in Res(I) : I.ren[r] =>
       s.used[r] = (LET f(k) == IF r <= I.nt THEN Need(I, k, s.mode[k], r, Act(s, k)) ELSE s.held[k][r]
                    IN SumOver(f, In(s, I, "run")))
  /\ \A r \in Res(I) : s.used[r] >= 0
  /\ \A r \in Res(I) : r > I.nt => Cardinality({k \in Tasks(I) : s.held[k][r] > 0}) <= 1
WithinCapacity(I, s) == \A r \in Res(I) : s.used[r] <= s.av[r]
=============================================================================
