---------------------------- MODULE Rcpsp_Trace ----------------------------
EXTENDS Rcpsp, TraceBase
(* tr.I: instances (I.cst: constant capacities); z: solutions, o -> [p instance, perm, modes, given]: a given schedule  *)
(* stays until the permutation or the modes are assigned; otherwise the schedule is the one the serial scheme generates *)
RInit(tr) == [x \in {} |-> 0]
Inst(tr, p) == [tr.I[p] EXCEPT !.nr = Rng(tr.I[p].nr)]
Known(z, o) == o \in DOMAIN z
RNext(tr, z, e) ==
  CASE e.op = "new" -> Put(z, e.o, [p |-> e.p, perm |-> e.perm, modes |-> Norm(Inst(tr, e.p), e.modes), given |-> e.given])
    [] e.op = "setperm" -> [z EXCEPT ![e.o].perm = e.perm, ![e.o].given = <<>>]
    [] e.op = "setmodes" -> [z EXCEPT ![e.o].modes = e.modes, ![e.o].given = <<>>]
    [] e.op = "copy" -> Put(z, e.c, z[e.o])
    [] e.op = "move" -> [z EXCEPT ![e.o].p = e.p, ![e.o].given = <<>>, ![e.o].modes = Norm(Inst(tr, e.p), z[e.o].modes)]
    [] OTHER -> z
(* the schedule of solution o and whether it is feasible *)
Sched(tr, x) ==
  LET J == Inst(tr, x.p) IN
  IF x.given # <<>> THEN [ok |-> Feasible(J, x.modes, x.given), sch |-> x.given]
  ELSE Generated(J, x.perm, x.modes)
Measured(J) == J.cst /\ J.nr = {}
Values(J, modes, g, e) == \* e.mk, e.res (scaled reserve, 0 when the schedule has no length)
  If(IF g.ok THEN e.mk = g.sch[J.N].e ELSE e.mk > J.H, "rcpsp.makespan")
  \cup If((Measured(J) /\ g.ok /\ g.sch[J.N].e > 0) => e.res = Reserve(J, modes, g.sch), "rcpsp.reserve")
Sorted(sch, perm) == \A a, b \in DOMAIN perm : a < b => sch[perm[a] + 2].s <= sch[perm[b] + 2].s
IsPermutation(J, q) == Len(q) = J.N - 2 /\ Rng(q) = 0..(J.N - 3)
Agg(how, v) ==
  CASE how = "min" -> Min(Rng(v))
    [] how = "max" -> Max(Rng(v))
    [] how = "sum" -> FoldFunction(LAMBDA a, b : a + b, 0, v)
Weighted(w, v) == FoldFunction(LAMBDA a, b : a + b, 0, [k \in DOMAIN v |-> w[k] * v[k]])
Mid(lo, hi) == (lo + hi) \div 2
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RFails(tr, z, e) ==
  CASE e.op \in {"new", "setperm", "setmodes", "copy", "move"} -> {}
    [] e.op = "look" -> \* schedule of a solution just built, evaluated or checked; sched <<>>: flagged infeasible
         LET x == z[e.o]  J == Inst(tr, x.p)  g == Sched(tr, x) IN
         IF x.given # <<>> THEN If(e.sched = x.given, "rcpsp.given")
         ELSE If(e.feas = g.ok, "rcpsp.feasible")
              \cup If((e.feas /\ g.ok) => e.sched = g.sch, "rcpsp.schedule")
              \cup If(e.perm = x.perm /\ e.modes = x.modes, "rcpsp.encoding")
    [] e.op = "std" -> \* permutation read from the schedule
         LET x == z[e.o]  J == Inst(tr, x.p)  g == Sched(tr, x) IN
         If(x.given # <<>> \/ g.ok => (IsPermutation(J, e.perm) /\ Sorted(g.sch, e.perm)), "rcpsp.order")
    [] e.op = "satisfy" ->
         LET x == z[e.o]  g == Sched(tr, x) IN If(e.ok = g.ok, "rcpsp.satisfy")
    [] e.op = "eval" ->
         LET x == z[e.o]  J == Inst(tr, x.p)  g == Sched(tr, x) IN
         IF x.given # <<>> THEN If(e.mk = x.given[J.N].e, "rcpsp.makespan")
              \cup If((Measured(J) /\ g.ok /\ e.flag /\ e.mk > 0) => e.res = Reserve(J, x.modes, x.given), "rcpsp.reserve")
         ELSE Values(J, x.modes, g, e)
    [] e.op = "encoded" -> \* evaluation of a permutation or of modes alone
         LET J == Inst(tr, e.p) IN Values(J, e.modes, Generated(J, e.perm, e.modes), e)
    [] e.op = "usage" -> \* e.use[r][t+1], of a feasible or given schedule; the last entry is after the makespan
         LET x == z[e.o]  J == Inst(tr, x.p)  g == Sched(tr, x)  mk == g.sch[J.N].e IN
         If((x.given = <<>> /\ ~g.ok) \/ (Len(e.use) = Len(e.rs) /\ \A r \in DOMAIN e.use : Len(e.use[r]) = mk + 1 /\ \A t \in 0..(mk - 1) :
               e.use[r][t + e.shift + 1] = Usage(J, x.modes, g.sch, e.rs[r], t)), "rcpsp.usage")
         \cup If((x.given = <<>> /\ ~g.ok) \/ \A r \in DOMAIN e.use : e.use[r][IF e.shift = 1 THEN 1 ELSE mk + 1] = 0, "rcpsp.usage")
    [] e.op = "units" -> \* individual units: e.who[t+1][u] task held by unit u of resource e.r (0: none)
         LET x == z[e.o]  J == Inst(tr, x.p)  g == Sched(tr, x) IN
         If(~g.ok \/ \A t \in DOMAIN e.who : \A k \in 1..J.N :
              Cardinality({u \in DOMAIN e.who[t] : e.who[t][u] = k}) = (IF Running(g.sch, k, t - 1) THEN Need(J, x.modes, k, e.r) ELSE 0), "rcpsp.units")
         \cup If(~g.ok \/ \A u \in DOMAIN e.total : e.total[u] = Cardinality({t \in DOMAIN e.who : e.who[t][u] # 0}), "rcpsp.units")
         \cup If(~g.ok \/ \A u \in DOMAIN e.total : \A t \in 1..(Len(e.who) - 1) : \A k \in {e.who[t][u]} : \* never handed over within a task
                (k # 0 /\ Running(g.sch, k, t)) => e.who[t + 1][u] = k, "rcpsp.units")
    [] e.op = "diffs" ->
         LET g == Sched(tr, z[e.o])  h == Sched(tr, z[e.c]) IN
         If((g.ok /\ h.ok) => \A k \in DOMAIN e.got : e.got[k] = g.sch[k].s - h.sch[k].s, "rcpsp.diffs")
    [] e.op = "graph" -> \* edges [a, b, lo, hi]
         LET J == Inst(tr, e.p) IN
         If({<<e.edges[i].a, e.edges[i].b>> : i \in DOMAIN e.edges} = {<<a, b>> \in Tasks(J) \X Tasks(J) : b \in Rng(J.succ[a])}
            /\ \A i \in DOMAIN e.edges : LET D == {J.modes[e.edges[i].a][m].dur : m \in DOMAIN J.modes[e.edges[i].a]} IN
                 e.edges[i].lo = Min(D) /\ e.edges[i].hi = Max(D), "rcpsp.graph")
    [] e.op = "robust" -> \* aggregated makespan over several instances
         LET v == [k \in DOMAIN e.ps |-> LET J == Inst(tr, e.ps[k])  g == Generated(J, e.perm, e.modes) IN IF g.ok THEN g.sch[J.N].e ELSE -1] IN
         If((\A k \in DOMAIN v : v[k] >= 0) => e.mk = (IF e.how = "weighted" THEN Weighted(e.w, v) ELSE Agg(e.how, v)), "rcpsp.robust")
    [] e.op = "unique" -> \* one model whose data aggregate those of the others (whole part)
         If(\A k \in DOMAIN e.modes : \A m \in DOMAIN e.modes[k] :
              LET D == [i \in DOMAIN e.ps |-> tr.I[e.ps[i]].modes[k][m]]
                  n == Len(e.ps)
                  A(v) == CASE e.how = "min" -> Min(Rng(v)) [] e.how = "max" -> Max(Rng(v)) [] e.how = "sum" -> Agg("sum", v) \div n
              IN e.modes[k][m].dur = A([i \in DOMAIN D |-> D[i].dur])
                 /\ \A r \in DOMAIN e.modes[k][m].need : e.modes[k][m].need[r] = A([i \in DOMAIN D |-> D[i].need[r]]), "rcpsp.unique")
    [] e.op = "law" -> \* what an uncertain model may draw: got[k][m] = [dur, need], bounds of the laws around the base model
         LET J == Inst(tr, e.p)
             Lo(k, v, w, isdur) == IF k = 1 \/ k = J.N THEN v ELSE LET x == v - w IN IF isdur THEN (IF x < 1 THEN 1 ELSE x) ELSE (IF x < 0 THEN 0 ELSE x)
             Hi(k, v, w, isdur, c) == IF k = 1 \/ k = J.N THEN v ELSE IF isdur THEN v + w ELSE (IF v + w > c THEN c ELSE v + w)
             Good(x, v, lo, hi) == CASE e.how = "best" -> x = lo [] e.how = "worst" -> x = hi
                                     [] e.how = "average" -> x = Mid(lo, hi) [] e.how = "sample" -> x \in lo..hi
         IN If(\A k \in DOMAIN e.got : \A m \in DOMAIN e.got[k] :
                 LET b == J.modes[k][m] IN
                 /\ IF e.wd < 0 THEN e.got[k][m].dur = b.dur ELSE Good(e.got[k][m].dur, b.dur, Lo(k, b.dur, e.wd, TRUE), Hi(k, b.dur, e.wd, TRUE, 0))
                 /\ \A r \in Res(J) : IF e.wr < 0 \/ r \in J.nr THEN e.got[k][m].need[r] = b.need[r]
                                      ELSE Good(e.got[k][m].need[r], b.need[r], Lo(k, b.need[r], e.wr, FALSE), Hi(k, b.need[r], e.wr, FALSE, J.cap[r][1])), "rcpsp.law")
    [] e.op = "helper" -> \* corrected schedule: only the tasks of e.pre move, later, and it stays feasible
         LET J == Inst(tr, e.p)  g == Generated(J, e.perm, e.modes) IN
         If(g.ok => /\ \A k \in DOMAIN e.sched : IF k \in Rng(e.pre) THEN e.sched[k].s >= g.sch[k].s ELSE e.sched[k] = g.sch[k]
                    /\ Lasting(J, e.modes, e.sched) /\ Feasible(J, e.modes, e.sched), "rcpsp.helper")
         \cup If(g.ok => e.gap = FoldFunction(LAMBDA a, b : a + b, 0, [i \in DOMAIN e.main |->
                    (e.sched[e.main[i]].s - e.sched[e.pre[i]].e) + (e.sched[e.post[i]].s - e.sched[e.main[i]].e)]), "rcpsp.gap")
         \cup If(g.ok => e.mk = g.sch[J.N].e, "rcpsp.makespan")
    [] OTHER -> {"unknown"}
=============================================================================
