--------------------------- MODULE EnvDomain_Trace ---------------------------
(* Calls on one domain object in order; z = [mem, live, s0] where s0 is the  *)
(* initial state once asked for (None before).                              *)
EXTENDS EnvDomain, TraceBase
EInit(tr) == [mem |-> <<>>, live |-> FALSE, s0 |-> None]
MemOf(z, e) == IF e.given THEN e.m ELSE z.mem
EffMem(I, m) == IF I.kind = "none" THEN <<>> ELSE m
(* values: rewards and costs of every agent *)
DualOk(I, e) == Len(e.r) = I.ag /\ Len(e.c) = I.ag /\ \A k \in Agents(I) : e.c[k] = 0 - e.r[k]
OutFails(I, m, e) ==
  LET outs == Outcomes(I, EffMem(I, m), e.a)
      obsd == {o \in outs : o[2] = e.o} IN
  If(obsd # {}, "outcome.observation")
  \cup If(obsd = {} \/ \E o \in obsd : o[3] = e.r, "outcome.value")
  \cup If(obsd = {} \/ \E o \in obsd : o[4] = e.term, "outcome.termination")
  \cup If(\E o \in obsd : o[3] = e.r /\ o[4] = e.term, "outcome")
  \cup If(DualOk(I, e), "dual") \cup If(Len(e.info) = I.ag, "info")
(* a step: some outcome explains both what was returned and what was remembered *)
StepFails(I, z, e) ==
  LET outs == Outcomes(I, z.mem, e.a)
      expl == {o \in outs : o[2] = e.o /\ o[3] = e.r /\ o[4] = e.term} IN
  OutFails(I, z.mem, e)
  \cup If(\E o \in outs : e.mem = Remember(I, z.mem, o[1]), "memory.step")
  \cup If(expl = {} \/ \E o \in expl : e.mem = Remember(I, z.mem, o[1]), "outcome")
EFails(tr, z, e) ==
  LET I == tr.inst IN
  If(e.mkind = (IF z.live \/ e.op \in {"reset", "setmem"} THEN I.kind ELSE e.mkind), "memory.kind")
  \cup (IF e.op \in {"reset", "step", "setmem"} THEN {} ELSE If(e.mem = z.mem, "memory.untouched"))
  \cup If(~e.spoilt, "memory.argument")
  \cup CASE e.op = "reset" -> If(\E x \in Inits(I) : e.mem = Start(I, x) /\ (z.s0 # None => x = z.s0), "memory.reset")
                              \cup If(\E x \in Inits(I) : e.mem = Start(I, x) /\ e.o \in Observations(I, x, <<>>), "reset.observation")
         [] e.op = "step" -> StepFails(I, z, e)
         [] e.op = "sample" -> OutFails(I, e.m, e)
         [] e.op = "setmem" -> If(e.mem = Keep(I, e.m), "memory.set")
         [] e.op = "applicable" -> If(e.yes = Applicable(I, MemOf(z, e), e.a), "query.applicable")
         [] e.op = "offer" -> If(\A k \in Agents(I) : Range(e.els[k]) = Range(App(I, MemOf(z, e))[k]) , "query.offer")
         [] e.op = "enabled" -> If(e.yes = (e.e \in Enabled(I, MemOf(z, e))), "query.enabled")
         [] e.op = "isaction" -> If(e.yes = IsAction(I, e.e), "query.action")
         [] e.op = "goal" -> If(e.yes = IsGoal(I, e.o), "query.goal")
         [] e.op = "isobs" -> If(e.yes = IsObservation(I, e.o), "query.observation")
         [] e.op = "terminal" -> If(e.yes = Terminal(I, e.x), "query.terminal")
         [] e.op = "same" -> If(e.yes, "query.cached")
         [] e.op = "initial" -> If(e.x \in Inits(I) /\ (z.s0 # None => e.x = z.s0), "query.initial")
         [] e.op = "initdist" -> If(IF e.det THEN Len(e.d) = 1 /\ e.d[1][1] \in Inits(I) /\ (z.s0 # None => e.d[1][1] = z.s0)
                                             ELSE SameDist(I.init, e.d), "dist.initial")
         [] e.op = "dist" -> If(SameDist(NextDist(I, e.m, e.a), e.d), "dist.next")
         [] e.op = "obsdist" -> If(SameDist(ObsDist(I, e.x, e.a), e.d), "dist.observation")
         [] e.op = "observe" -> If(e.o \in Observations(I, e.x, e.a), "query.observe")
         [] e.op = "value" -> If(e.r = Value(I, e.m, e.a, e.x), "value") \cup If(DualOk(I, e), "dual")
         [] e.op = "check" -> If(e.yes = (I.pos => e.cost >= 0), "value.check")
         [] OTHER -> {"unknown"}
ENext(tr, z, e) ==
  LET I == tr.inst IN
  CASE e.op = "reset" -> [mem |-> e.mem, live |-> TRUE, s0 |-> IF tr.inst.detinit /\ Len(e.mem) > 0 THEN e.mem[Len(e.mem)] ELSE z.s0]
    [] e.op \in {"step", "setmem"} -> [z EXCEPT !.mem = e.mem, !.live = TRUE]
    [] e.op = "initial" -> [z EXCEPT !.s0 = e.x]
    [] e.op = "initdist" /\ e.det -> [z EXCEPT !.s0 = e.d[1][1]]
    [] OTHER -> z
=============================================================================
