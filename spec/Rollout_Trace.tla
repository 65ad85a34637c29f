--------------------------- MODULE Rollout_Trace ---------------------------
EXTENDS Rollout, TraceBase
XInit(tr) == RInit
RFails(tr, z, e) ==
  LET I == tr.inst J == tr.job IN
  CASE e.op = "sreset" -> If(MayBegin(J, z), IF Len(Finish(J, z).eps) < J.episodes THEN "rollout.stop" ELSE "rollout.episodes") \cup If(MaySolverReset(J, z) \/ ~MayBegin(J, z), "rollout.start")
    [] e.op = "dreset" -> If(MayBegin(J, z), IF Len(Finish(J, z).eps) < J.episodes THEN "rollout.stop" ELSE "rollout.episodes")
                          \cup If((~J.from /\ MayPlace(J, z)) \/ ~MayBegin(J, z), "rollout.start")
    [] e.op = "setmem" -> LET y == Finish(J, z) IN
         IF y.ph = "begin" /\ ~y.ds THEN If(MayBegin(J, z), "rollout.episodes") \cup If(J.from /\ e.m = J.m, "rollout.start")
         ELSE If(e.m = z.mem, "rollout.memory")
    [] e.op = "choose" -> IF MayChoose(J, z) THEN If(e.o \in z.o, "rollout.observation")
                          ELSE {IF Over(J, z) THEN "rollout.stop" ELSE "rollout.order"}
    [] e.op = "step" -> If(e.pre = z.mem, "rollout.memory")
                        \cup (IF MayStep(J, z) THEN If(MayAct(I, J, z, e.a), "rollout.action") ELSE {IF Over(J, z) THEN "rollout.stop" ELSE "rollout.order"})
                        \cup If(\E out \in Outcomes(I, z.mem, e.a) : out[2] = e.o /\ out[3] = e.r /\ out[4] = e.term, "rollout.outcome")
    [] e.op = "free" -> If(e.post = e.pre, "rollout.memory")
    [] e.op = "return" -> If(Done(J, z), IF Finish(J, z).ph = "begin" THEN "rollout.episodes" ELSE "rollout.stop")
         \cup If(Len(Finish(J, z).eps) > 0 /\ \E k \in DOMAIN Finish(J, z).eps : SameEpisode(I, J, e, Finish(J, z).eps[k]), "rollout.report")
    [] e.op = "finish" -> If(Done(J, z), IF Finish(J, z).ph = "begin" THEN "rollout.episodes" ELSE "rollout.stop")
    [] e.op = "saved" ->  (* one directory per episode; a bijection between episodes and directories *)
         LET eps == Finish(J, z).eps
             Alike(k) == {d \in DOMAIN e.dirs : SameEpisode(I, J, e.dirs[d], eps[k])} IN
         If(Len(e.dirs) = Len(eps) /\ (\A k \in DOMAIN eps : Alike(k) # {}) /\ UNION {Alike(k) : k \in DOMAIN eps} = DOMAIN e.dirs
            /\ \A k \in DOMAIN eps : Cardinality(Alike(k)) = Cardinality({j \in DOMAIN eps : Alike(j) = Alike(k)}), "rollout.saved")
         \cup If(e.returned, "rollout.saved")
    [] OTHER -> {"unknown"}
RNext(tr, z, e) ==
  LET I == tr.inst J == tr.job IN
  CASE e.op = "sreset" -> SolverReset(J, z)
    [] e.op = "dreset" -> LET y == DomainReset(I, J, z, 1, e.o) IN [y EXCEPT !.mem = e.post]
    [] e.op = "setmem" -> LET y == Finish(J, z) IN IF y.ph = "begin" /\ ~y.ds THEN [SetMemory(I, J, z) EXCEPT !.mem = e.post] ELSE [z EXCEPT !.mem = e.post]
    [] e.op = "choose" -> Choose(z, e.o, e.a)
    [] e.op = "step" -> [StepTo(I, z, e.a, <<1, e.o, e.r, e.term>>) EXCEPT !.mem = e.post]
    [] e.op \in {"return", "finish"} -> Finish(J, z)
    [] OTHER -> z
=============================================================================
