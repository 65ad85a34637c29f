--------------------------- MODULE Convert_Trace ---------------------------
EXTENDS Convert, TraceBase
(* tr.I: projects.  z: the project at hand in its present form, and what is known of its uncertain durations *)
Fix(J) == [J EXCEPT !.nr = Rng(J.nr)]
VInit(tr) == [P |-> Fix(tr.I[1]), law |-> <<>>]
VNext(tr, z, e) ==
  CASE e.op = "domain" -> [z EXCEPT !.P = ToDomain(z.P, e.varying)]
    [] e.op = "problem" -> [z EXCEPT !.P = ToProblem(z.P)]
    [] e.op = "uncertain" -> [P |-> [z.P EXCEPT !.H = 2 * z.P.H, !.cap = [r \in DOMAIN z.P.cap |-> [t \in 1..(2 * z.P.H + 1) |-> z.P.cap[r][1]]]],
         law |-> [k \in 1..z.P.N |-> [i \in DOMAIN z.P.modes[k] |-> Spread(z.P.modes[k][i].dur, 10, e.noisy[k])]]]
    [] e.op = "lawis" -> [z EXCEPT !.law = [k \in 1..z.P.N |-> [i \in DOMAIN z.P.modes[k] |-> {<<x[1], x[2]>> : x \in Rng(e.law[k][i])}]]]
    [] e.op = "settled" -> z
    [] OTHER -> z
Same(P, J, n) == LET Q == Fix(J) IN
  If(SameWork(P, Q), n \o ".work") \cup If(SameWork(P, Q) => SameDurations(P, Q), n \o ".durations") \cup If(P.H = Q.H, n \o ".horizon") \cup If(P.nr = Q.nr, n \o ".renewable")
  \cup If(SameCap(P, Q), n \o ".availability") \cup If(P.S = Q.S => SameStaff(P, Q), n \o ".staff")
(* a completed execution: what was started when, in which mode, by whom *)
ActsOf(q) == [k \in {q[i].k : i \in DOMAIN q} |-> LET i == CHOOSE i \in DOMAIN q : q[i].k = k IN q[i]]
SchedOf(q) == [k \in {q[i].k : i \in DOMAIN q} |-> LET i == CHOOSE i \in DOMAIN q : q[i].k = k IN [s |-> q[i].s, e |-> q[i].e]]
VFails(tr, z, e) ==
  CASE e.op = "problem" -> Same(ToProblem(z.P), e.got, "problem")
    [] e.op = "domain" -> Same(ToDomain(z.P, e.varying), e.got, "domain")
    [] e.op = "uncertain" -> LET y == VNext(tr, z, e)  Q == Fix(e.got) IN
         If(SameWork(y.P, Q), "uncertain.work") \cup If(y.P.H = Q.H, "uncertain.horizon") \cup If(y.P.nr = Q.nr, "uncertain.renewable") \cup If(SameCap(y.P, Q), "uncertain.availability")
         \cup If(\A k \in 1..y.P.N : \A i \in DOMAIN y.law[k] : {<<x[1], x[2]>> : x \in Rng(e.law[k][i])} = y.law[k][i], "uncertain.law")
    [] e.op = "settled" -> LET Q == Fix(e.got) IN
         If(SameWork(z.P, Q), "settled.work") \cup If(z.P.H = Q.H, "settled.horizon") \cup If(z.P.nr = Q.nr, "settled.renewable") \cup If(SameCap(z.P, Q), "settled.availability")
         \cup If(SameWork(z.P, Q) => \A k \in 1..Q.N : \A i \in DOMAIN Q.modes[k] : Q.modes[k][i].dur \in {y[1] : y \in z.law[k][i]}, "settled.durations")
    [] e.op = "lawis" -> {}
    [] e.op = "run" -> LET a == ActsOf(e.acts)  q == SchedOf(e.sched)  P == ToProblem(z.P)
           mm == [i \in 1..(P.N - 2) |-> a[i + 1].m]
           use == [k \in {j \in DOMAIN a : a[j].units # <<>>} |-> [w \in Rng(a[k].units) |-> {x \in Required(P, mm, k) : P.emp[w].has[x] /\ P.emp[w].val[x] > 0}]]
           told == [k \in {e.use[i].k : i \in DOMAIN e.use} |-> {e.use[i].w : i \in {j \in DOMAIN e.use : e.use[j].k = k}}]
           run == [k \in DOMAIN a |-> [s |-> a[k].t, e |-> a[k].t + Dur(P, mm, k)]]
           good == IF P.S = 0 THEN Feasible(P, mm, run) ELSE Workable(P, mm, run, use) IN
         If(DOMAIN a = Tasks(P) /\ q = run, "run.dates")
         \cup If(e.modes = mm, "run.modes")
         \cup If(P.S > 0 => told = [k \in DOMAIN use |-> DOMAIN use[k]], "run.staff")
         \cup If(P.S > 0 => \A i \in DOMAIN e.use : e.use[i].x # 0 => e.use[i].x \in use[e.use[i].k][e.use[i].w], "run.skills")
         \cup If(e.ok = good, "run.check")
         \cup If(Constant(P) => e.ok, "run.feasible")
         \cup If(e.mk = run[P.N].e, "run.makespan")
    [] OTHER -> {"unknown"}
=============================================================================
