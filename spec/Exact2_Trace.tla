---------------------------- MODULE Exact2_Trace ---------------------------
EXTENDS Exact2, TraceBase
XInit(tr) == [tr.I EXCEPT !.nr = SeqToSet(tr.I.nr)]
Whole(z, x) == Len(x.sched) = z.N /\ Owned(z, x.modes)
Fine(z, P, x) == \* a schedule x.sched with its modes x.modes and what it is said to be worth
  IF ~Whole(z, x) THEN {"shape"}
  ELSE LET sch == x.sched modes == x.modes IN
       If(Lasting(z, modes, sch), "durations") \cup If(PrecedenceOK(z, sch), "precedence") \cup If(CapacityOK(z, modes, sch), "capacity") \cup If(BudgetOK(z, modes), "budget")
       \cup If(\A k \in DOMAIN P : Keeps(z, modes, sch, P[k]), "side.constraints") \cup If(x.fit = -Makespan(z, sch), "fitness")
XFails(tr, z, e) ==
  CASE e.op = "exact" -> \* the schedules handed out, the one said to be best
        LET P == e.P f == UNION {Fine(z, P, e.out[k]) : k \in DOMAIN e.out} IN
        f \cup (IF e.out = <<>> THEN If(~Reachable(z, SeqToSet(P), e.upto), "found.none")
                ELSE IF f # {} THEN {}
                ELSE If(e.best \in SeqToSet(e.out) /\ \A k \in DOMAIN e.out : e.out[k].fit <= e.best.fit, "best")
                     \cup If(~Reachable(z, SeqToSet(P), -e.best.fit - 1), "optimal"))
    [] e.op = "greedy" ->
        LET f == Fine(z, <<>>, e.x) order == [k \in DOMAIN e.x.perm |-> e.x.perm[k] + 2] sch == e.x.sched
            plain == z.cst /\ \A k \in 2..(z.N - 1) : Dur(z, e.x.modes, k) > 0 IN
        IF f # {} THEN f
        ELSE If(Len(order) = z.N - 2 /\ Rng(order) = 2..(z.N - 1) /\ \A i \in 2..Len(order) : sch[order[i - 1]].s <= sch[order[i]].s, "order")
             \cup If(e.modes = <<>> \/ e.x.modes = e.modes, "modes.given")
             \cup If(plain => NonDelay(z, e.x.modes, sch), "needless.wait")
             \cup If((plain /\ Len(order) = z.N - 2 /\ Rng(order) = 2..(z.N - 1)) => ByRule(z, e.x.modes, sch, order, e.rule, e.list), "rule")
    [] e.op = "modes" -> \* modes chosen for all tasks together
        UNION {If(Len(q) = z.N /\ Owned(z, SubSeq(q, 2, z.N - 1)), "modes.shape")
               \cup If((Len(q) = z.N /\ Owned(z, SubSeq(q, 2, z.N - 1))) => SubSeq(q, 2, z.N - 1) \in Opening(z) /\ \A c \in SeqToSet(e.P) : q[c.a] = c.d, "modes.budget")
               : q \in SeqToSet(e.out)}
        \cup If(e.out = <<>> => ~\E q \in Opening(z) : \A c \in SeqToSet(e.P) : q[c.a - 1] = c.d, "modes.none")
        \cup If(e.all => {q \in Opening(z) : \A c \in SeqToSet(e.P) : q[c.a - 1] = c.d} \subseteq {SubSeq(q, 2, z.N - 1) : q \in SeqToSet(e.out)}, "modes.all")
    [] e.op = "cpm" -> \* earliest and latest dates when nothing is short, and a path that has no slack
        LET early == [k \in 1..z.N |-> Early(z, k)] IN
        If(e.es = early /\ e.ef = [k \in 1..z.N |-> early[k] + Quickest(z, k)], "earliest")
        \cup If(e.ls = [k \in 1..z.N |-> Late(z, k) - Quickest(z, k)] /\ e.lf = [k \in 1..z.N |-> Late(z, k)], "latest")
        \cup If(IsPath(z, e.path) /\ Length(z, e.path) = early[z.N], "critical.path")
        \cup If(Len(e.order) = z.N /\ Rng(e.order) = 1..z.N /\ \A i \in 2..z.N : LET a == e.order[i - 1] b == e.order[i] IN
                   early[a] < early[b] \/ (early[a] = early[b] /\ e.ls[a] <= e.ls[b]), "cpm.order")
    [] e.op = "sgs" -> \* single mode, built around the dates
        LET ones == [k \in 1..(z.N - 2) |-> 1] sch == e.sched IN
        IF Len(sch) # z.N THEN {"shape"}
        ELSE If(Lasting(z, ones, sch), "durations") \cup If(PrecedenceOK(z, sch), "precedence") \cup If(CapacityOK(z, ones, sch), "capacity")
             \cup If(e.how \in {"cut", "list"} => Tight(z, ones, sch), "left.shift")
             \cup If(e.how = "list" => sch = Serial(z, ones, e.list, Nothing).sch, "serial")
    [] OTHER -> {"unknown"}
XNext(tr, z, e) == z
=============================================================================
