--------------------------- MODULE MsRcpsp_Trace ---------------------------
EXTENDS MsRcpsp, TraceBase
(* tr.I: instances; z: solutions, o -> [p instance, perm, modes, prio, fresh]; a copy is regenerated when it is evaluated *)
MInit(tr) == [x \in {} |-> 0]
Inst(tr, p) == [tr.I[p] EXCEPT !.nr = Rng(tr.I[p].nr)]
MNext(tr, z, e) ==
  CASE e.op = "new" -> Put(z, e.o, [p |-> e.p, perm |-> e.perm, modes |-> e.modes, prio |-> IF e.flat # <<>> THEN Decoded(Inst(tr, e.p), e.flat) ELSE e.prio])
    [] e.op = "copy" -> Put(z, e.c, z[e.o])
    [] e.op = "set" -> [z EXCEPT ![e.o] = [@ EXCEPT !.perm = e.perm, !.modes = e.modes, !.prio = e.prio]]
    [] OTHER -> z
PlanOf(tr, x) == LET J == Inst(tr, x.p) IN Plan(J, x.perm, x.modes, x.prio)
(* logged schedules: entries [k, s, e]; logged usage: entries [k, w, x] *)
SchOf(q) == [k \in {q[i].k : i \in DOMAIN q} |-> LET i == CHOOSE i \in DOMAIN q : q[i].k = k IN [s |-> q[i].s, e |-> q[i].e]]
UseOf(q) == LET A == Rng(q) IN
  [k \in {a.k : a \in A} |-> [w \in {a.w : a \in {b \in A : b.k = k}} |-> {a.x : a \in {b \in A : b.k = k /\ b.w = w /\ b.x > 0}}]]
Flat(use) == UNION {{<<k, w, x>> : x \in use[k][w]} : <<k, w>> \in UNION {{<<j, v>> : v \in DOMAIN use[j]} : j \in DOMAIN use}}
FlatLog(q) == {<<q[i].k, q[i].w, q[i].x>> : i \in DOMAIN q}
Full(I, sch) == DOMAIN sch = Tasks(I)
Unit(I, k, j) == IF j = k THEN 1 ELSE 0
Makes(J, g, mk) == If(IF g.ok THEN mk = g.sch[J.N].e ELSE mk > J.H, "staff.makespan")
MFails(tr, z, e) ==
  CASE e.op \in {"new", "copy", "set"} -> {}
    [] e.op = "look" -> \* the plan of a solution just built or evaluated; ok: complete
         LET x == z[e.o]  J == Inst(tr, x.p)  g == PlanOf(tr, x) IN
         If(e.ok = g.ok, "staff.feasible")
         \cup If((e.ok /\ g.ok) => SchOf(e.sched) = g.sch, "staff.schedule")
         \cup If((e.ok /\ g.ok) => FlatLog(e.use) = Flat(g.use), "staff.team")
         \cup If(e.modes = [k \in Tasks(J) |-> ModeOf(J, x.modes, k).id], "staff.modes")
    [] e.op = "satisfy" -> LET x == z[e.o]  g == PlanOf(tr, x) IN If(e.ok = g.ok, "staff.satisfy")
    [] e.op = "eval" -> LET x == z[e.o] IN Makes(Inst(tr, x.p), PlanOf(tr, x), e.mk)
    [] e.op = "encoded" -> LET J == Inst(tr, e.p) IN
         Makes(J, Plan(J, e.perm, e.modes, IF e.flat # <<>> THEN Decoded(J, e.flat) ELSE e.prio), e.mk)
    [] e.op = "given" -> \* a plan from elsewhere
         LET J == Inst(tr, e.p)  sch == SchOf(e.sched)  use == UseOf(e.use) IN
         If(e.ok = (Full(J, sch) /\ Workable(J, e.modes, sch, use)), "staff.satisfy")
         \cup If(Full(J, sch) => e.mk = sch[J.N].e, "staff.makespan")
    [] e.op = "variant" -> \* a plan turned into a permutation, modes and priorities
         LET J == Inst(tr, e.p)  sch == SchOf(e.sched)  use == UseOf(e.use) IN
         If(Len(e.perm) = J.N - 2 /\ Rng(e.perm) = 0..(J.N - 3) /\ \A a, b \in DOMAIN e.perm : a < b => sch[e.perm[a] + 2].s <= sch[e.perm[b] + 2].s, "variant.order")
         \cup If(e.vmodes = e.modes, "variant.modes")
         \cup If(\A k \in 2..(J.N - 1) : LET q == e.prio[k - 1]  U == Users(use, k) IN
                   Rng(q) = Emps(J) /\ Len(q) = Len(J.emp) /\ Rng(SubSeq(q, 1, Cardinality(U))) = U, "variant.workers")
    [] e.op = "shift" -> \* left shift of a workable plan: same employees and modes
         LET J == Inst(tr, e.p)  sch == SchOf(e.sched)  use == UseOf(e.use)  n == SchOf(e.got) IN
         If(Workable(J, e.modes, sch, use) => (Full(J, n) /\ Lasting(J, e.modes, n) /\ Workable(J, e.modes, n, use)), "shift.workable")
         \cup If(Workable(J, e.modes, sch, use) => n = LeftShifted(J, e.modes, use, sch), "shift.earliest")
         \cup If(FlatLog(e.guse) = FlatLog(e.use) /\ e.gmodes = e.modes, "shift.kept")
    [] e.op = "pooled" -> \* employees seen as resources: cap[q][t+1] and need per mode of resources then skills
         LET J == Inst(tr, e.p)  R == Len(J.cap) IN
         If(\A r \in Res(J) : e.cap[r] = J.cap[r], "pooled.resources")
         \cup If(\A x \in Skills(J) : \A t \in 0..(J.H - 1) : e.cap[R + x][t + 1] = Pooled(J, x, t), "pooled.skills")
         \cup If(\A k \in Tasks(J) : Len(e.modes[k]) = Len(J.modes[k]) /\ \A m \in DOMAIN J.modes[k] :
                   /\ e.modes[k][m].id = J.modes[k][m].id /\ e.modes[k][m].dur = J.modes[k][m].dur
                   /\ e.modes[k][m].need = J.modes[k][m].need \o J.modes[k][m].skill, "pooled.needs")
         \cup If(Rng(e.nr) = J.nr /\ e.H = J.H /\ \A k \in Tasks(J) : Rng(e.succ[k]) = Rng(J.succ[k]), "pooled.rest")
    [] e.op = "pooledsat" -> \* a workable plan suits the pooled problem
         If(e.ok, "pooled.relaxes")
    [] e.op = "graph" ->
         LET J == Inst(tr, e.p) IN
         If({<<e.edges[i].a, e.edges[i].b>> : i \in DOMAIN e.edges} = {<<a, b>> \in Tasks(J) \X Tasks(J) : b \in Rng(J.succ[a])}, "staff.graph")
    [] OTHER -> {"unknown"}
=============================================================================
