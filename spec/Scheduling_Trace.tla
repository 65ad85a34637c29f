--------------------------- MODULE Scheduling_Trace ---------------------------
(* Executions of scheduling domains: events "init" (initial state and what is *)
(* offered in it), "step" (an action applied to the current state), "trans"   *)
(* (an action applied to the state e.pre, which was observed before),         *)
(* "sampled" (actions drawn from the action space of a domain with units).    *)
EXTENDS Scheduling, TraceBase
SInit(tr) == 0
Norm(o) == [o EXCEPT !.conds = ToSetOf(@)]
Abs(x) == IF x < 0 THEN -x ELSE x
PreOf(z, e) == IF e.op = "trans" THEN Norm(e.pre) ELSE z

Close(a, b, tol) == Abs(a - b) <= tol
ProgressFails(I, z, prog) ==
  If(\A k \in Tasks(I) :
       CASE z.st[k] \in {"rem", "out"} -> prog[k] = None
         [] z.st[k] = "done" -> prog[k] = 10000
         [] OTHER -> Close(prog[k] * z.dur[k], 10000 * Act(z, k), z.dur[k]), "life.progress")
OfferFails(I, z, o) ==
  IF o.off = <<>> THEN {} ELSE
  LET off == ToSetOf(o.off)  kind(x) == {a \in off : a.kind = x} IN
  If(kind("START") = OfferStart(I, z), "offer.start")
  \cup If(kind("PAUSE") = OfferPause(I, z), "offer.pause")
  \cup If(kind("RESUME") = OfferResume(I, z), "offer.resume")
  \cup If(kind("TIME_PR") = OfferTime, "offer.time")
  \cup If(Len(o.off) = Cardinality(off), "offer.duplicate")
ObsFails(I, o) ==
  LET z == Norm(o.s) IN
  ProgressFails(I, z, o.prog) \cup OfferFails(I, z, o)
  \cup If(o.goal = Goal(I, z), "goal") \cup If(o.term = Terminal(I, z), "terminal")
  \cup If(Lifecycle(I, z), "life.invariant") \cup If(Conserved(I, z), "res.invariant")
(* which fields of the observed successor no branch of the specification explains *)
DiffFails(I, q, o) ==
  IF \E i \in DOMAIN q : q[i][1] = o THEN {} ELSE
  LET same == {i \in DOMAIN q : q[i][1].dur = o.dur /\ q[i][1].conds = o.conds} IN
  IF same = {} THEN (IF \E i \in DOMAIN q : q[i][1].dur = o.dur THEN {"branch.conditions"} ELSE {"branch.duration"})
  ELSE LET b == q[CHOOSE i \in same : TRUE][1] IN
    If(b.t = o.t, "time") \cup If(b.st = o.st, "life.status") \cup If(b.mode = o.mode, "life.mode")
    \cup If(b.start = o.start /\ b.end = o.end, "life.dates") \cup If(b.pau = o.pau /\ b.res = o.res, "life.pauses")
    \cup If(b.used = o.used, "res.used") \cup If(b.held = o.held, "res.held") \cup If(b.av = o.av, "res.availability")
DistFails(I, q, dist) ==
  IF dist = <<>> THEN {} ELSE
  LET obs == [j \in DOMAIN dist |-> Norm(dist[j].s)]
      X == {obs[j] : j \in DOMAIN dist}  Y == {q[i][1] : i \in DOMAIN q}
      P(x) == LET f(j) == IF obs[j] = x THEN dist[j].p ELSE 0 IN SumTo(f, Len(dist))
      W(x) == LET f(i) == IF q[i][1] = x THEN (q[i][2] * 1000000) \div q[i][3] ELSE 0 IN SumTo(f, Len(q))
      tot == LET f(j) == dist[j].p IN SumTo(f, Len(dist))
  IN If(Close(tot, 1000000, 50), "dist.total")
     \cup If(X = Y, "dist.branches")
     \cup If(\A x \in X \cap Y : Close(P(x), W(x), 50), "dist.probability")
     \cup UNION {DiffFails(I, q, obs[j]) : j \in DOMAIN dist}
     \cup UNION {ProgressFails(I, obs[j], dist[j].prog) : j \in {j \in DOMAIN dist : obs[j] \in Y}}
SFails(tr, z, e) ==
  LET I == tr.inst IN
  CASE e.op = "init" -> If(Norm(e.next.s) = InitState(I), "init") \cup ObsFails(I, e.next)
    [] e.op = "sampled" ->
         LET acts == e.acts  st == {<<a.task, a.mode>> : a \in {a \in ToSetOf(acts) : a.kind = "START"}} IN
         If(\A a \in ToSetOf(acts) : SampledOk(I, z, a), "offer.start")
         \cup If(e.many => \A a \in OfferStart(I, z) : UnitsSuffice(I, z, a.task, a.mode) => <<a.task, a.mode>> \in st, "offer.start")
         \cup If(e.many => \A a \in OfferPause(I, z) : \E b \in ToSetOf(acts) : b.kind = "PAUSE" /\ b.task = a.task, "offer.pause")
    [] OTHER ->
         LET p == PreOf(z, e)  q == Succ(I, p, e.a)  o == Norm(e.next.s) IN
         LET d == DiffFails(I, q, o) IN
         d \cup DistFails(I, q, e.dist)
         \cup (IF d = {} THEN ObsFails(I, e.next) ELSE {})
         \cup (IF e.a.kind \in {"START", "RESUME"}   \* granted exactly when the needs (and skills) are met
               THEN If((o.st[e.a.task] = p.st[e.a.task]) <=> (\E i \in DOMAIN q : q[i][1].st[e.a.task] = p.st[e.a.task]), "res.granted")
               ELSE {})
         \cup If(e.value = Cost(I, p, e.a, o), "value")
         \cup If(\A b \in ToSetOf(e.oterm) : b = Terminal(I, o), "terminal")
         \cup If(~e.mutated, "memory")
SNext(tr, z, e) == IF e.op \in {"init", "step"} THEN Norm(e.next.s) ELSE z
=============================================================================
