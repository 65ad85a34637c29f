---------------------------- MODULE Policy_Trace ----------------------------
(* tr.inst the instance, tr.P policies, tr.J the instance a meta policy       *)
(* plays its rollouts on.  "ask": what policy e.p answers in state e.s;        *)
(* "end": the last state of an execution driven by it; "meta": what a meta    *)
(* policy over the policies e.ps answers.                                     *)
EXTENDS Policy, TraceBase
XInit(tr) == 0
XNorm(o) == [o EXCEPT !.conds = ToSetOf(@)]
XAct(a) == IF a.kind = "TIME_PR" THEN [a EXCEPT !.mode = None, !.task = None] ELSE a
Single(I) == \A k \in Tasks(I) : \A md \in ModesOf(I, k) : Len(I.dist[k][md]) = 1
Seen(I, P, o) == \* the instance with the durations that occurred
  TLCEval([I EXCEPT !.dist = [k \in Tasks(I) |-> [md \in ModesOf(I, k) |-> IF md = P.mode[k] /\ o.dur[k] # None THEN <<<<o.dur[k], 1>>>> ELSE <<I.dist[k][md][1]>>]]])
AskFails(I, P, o, a) ==
  LET q == Answers(I, P, o) IN
  IF a \in q THEN {} ELSE
  IF a.kind = "TIME_PR" THEN {"policy.idle"}
  ELSE If(a.kind = "START" /\ a.time = P.go, "policy.kind")
       \cup If(a.task \in Tasks(I), "policy.task") \cup
       (IF a.task \notin Tasks(I) THEN {} ELSE
          If(o.st[a.task] = "rem", "policy.available") \cup If(a.task \in Ready(I, o), "policy.precedence")
          \cup If(a.mode = P.mode[a.task], "policy.mode") \cup If(a.units = P.crew[a.task], "policy.crew")
          \cup (IF a.mode \in ModesOf(I, a.task) THEN If(CanApply(I, o, a.task, a.mode, ToSetOf(a.units)), "policy.affordable") ELSE {})
          \cup If(a.task \in StartsOf(I, P, o), "policy.rule"))
XEndJ(I, J, P, o) == LET dur(k) == J.dist[k][P.mode[k]][1][1] IN
  IF ~(P.rule = "gantt" => Single(I)) \/ ~Completes(I, P, dur) THEN {} ELSE
  If(Goal(I, o), "end.complete")
  \cup (IF ~Goal(I, o) THEN {} ELSE
        (IF P.rule = "gantt" THEN If(o.start = P.sch, "end.dates") ELSE {})
        \cup (IF Deterministic(P) THEN If(\A x \in {Force(InitState(J))} : Play(J, P, x).start = o.start, "end.dates") ELSE {})
        \cup If(o.mode = P.mode, "end.modes"))
XEnd(I, P, o) == UNION {XEndJ(I, J, P, o) : J \in {Seen(I, P, o)}}
XFails(tr, z, e) ==
  LET I == tr.inst IN
  CASE e.op = "ask" -> AskFails(I, tr.P[e.p], XNorm(e.s), XAct(e.a)) \cup If(e.same, "policy.changes")
    [] e.op = "end" -> XEnd(I, tr.P[e.p], XNorm(e.s))
    [] e.op = "meta" ->
         UNION {LET Q == {i \in DOMAIN e.ps : e.exact => \A j \in DOMAIN e.ps : T[j] >= T[i]} IN
                If(XAct(e.a) \in UNION {Answers(I, tr.P[e.ps[i]], XNorm(e.s)) : i \in Q}, "policy.meta")
                : T \in {TLCEval([i \in DOMAIN e.ps |-> IF e.exact THEN Play(tr.J, tr.P[e.ps[i]], XNorm(e.s)).t ELSE 0])}}
         \cup If(e.same, "policy.changes")
XNext(tr, z, e) == z
=============================================================================
