------------------------- MODULE SolverMatch_Trace -------------------------
EXTENDS SolverMatch, TraceBase
(* tr.solvers[k]: level and which domains pass the additional check; tr.domains[k]: level.                  *)
(* z: the domain every solver was last given (0: none), and the last answers of solvers observed as a whole *)
LevelOf(x) == IF "name" \in DOMAIN x THEN Helper[x.name] ELSE x.lv
Acc(tr, c, d) == Accepts(LevelOf(tr.domains[d]), LevelOf(tr.solvers[c]), tr.solvers[c].extra[d])
SInit(tr) == [given |-> [k \in 1..tr.live |-> 0], table |-> [k \in 1..tr.live |-> <<>>]]
SNext(tr, z, e) ==
  CASE e.op = "solve" -> [z EXCEPT !.given[e.s] = e.d]
    [] e.op = "answers" -> [z EXCEPT !.table[e.s] = e.got]
    [] OTHER -> z
SFails(tr, z, e) ==
  CASE e.op = "check" -> If(e.yes = Acc(tr, e.c, e.d), "match.check")
    [] e.op = "require" -> If(SeqToSet(e.got) = Required(LevelOf(tr.solvers[e.c])) /\ Len(e.got) = Cardinality(SeqToSet(e.got)), "match.require")
    [] e.op = "match" -> If(SeqToSet(e.got) = {c \in SeqToSet(e.among) : Acc(tr, c, e.d)} /\ Len(e.got) = Cardinality(SeqToSet(e.got)), "match.exact")
    [] e.op = "ask" -> If(e.got = z.given[e.s] * 100 + e.obs, "match.isolated")
    [] e.op = "solve" -> If(e.seen = e.d, "match.solve")
    [] e.op = "reset" -> If(e.times = 1, "match.reset")
    [] e.op = "answers" -> If(e.own \/ e.got = z.table[e.s], "match.isolated")
    [] OTHER -> {"unknown"}
=============================================================================
