--------------------------- MODULE CoreData_Trace ---------------------------
EXTENDS CoreData, TraceBase
CInit(tr) == 0
CNext(tr, z, e) == z
CFails(tr, z, e) ==
  CASE e.op = "tv" -> If(e.r = Reward(e.hasr, e.rin, e.hasc, e.cin), "value.reward") \cup If(e.c = 0 - e.r, "dual")
    [] e.op = "outcome" -> If(e.nv = PerAgent(e.n) /\ e.ni = PerAgent(e.n), "outcome.peragent")
                           \cup If(e.zero /\ e.keys, "outcome.default")
    [] e.op = "replace" -> If(e.after = [e.before EXCEPT ![e.field] = e.new] /\ e.kept = e.before, "outcome.replace")
    [] e.op = "draws" -> If(SeqToSet(e.xs) \subseteq Positive(e.q), "dist.support")
    [] e.op = "values" -> If(e.got = e.q, "dist.values")
    [] e.op = "member" -> If(e.yes = (e.x \in SeqToSet(e.els)), "query.member")
    [] e.op = "elements" -> If(SeqToSet(e.got) = SeqToSet(e.els), "query.elements")
    [] e.op = "sampled" -> If(e.yes /\ e.inels, "query.sample")
    [] e.op = "roundtrip" -> If(e.same, "query.roundtrip")
    [] e.op = "bound" -> If(e.yes = Holds(e.v, e.rel, e.b), "query.constraint") \cup If(e.grel = e.rel /\ e.gb = e.b /\ e.ev = e.v /\ e.dep = e.gdep, "query.constraint")
    [] OTHER -> {"unknown"}
=============================================================================
