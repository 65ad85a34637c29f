-------------------------- MODULE GymWrap_Trace --------------------------
(* tr.E the environment; tr.kind: "live" (the domain is the environment), "fixed" (same initial state for ever), "free" (states can be continued   *)
(* in any order), "as" (a domain used as an environment), "space", "feat".  z = [p, k resets, init, H remembered states, c the current one, bee]   *)
EXTENDS GymWrap, TraceBase
WInit(tr) == [p |-> 0, k |-> 0, init |-> 0, H |-> <<>>, c |-> 0, bee |-> <<>>]
(* position after a reset *)
Again(tr, z) == CASE tr.kind = "fixed" /\ z.init > 0 -> z.init [] tr.kind \in {"free", "as"} -> Start(tr.E, 1) [] OTHER -> Start(tr.E, z.k + 1)
RECURSIVE Feat1(_, _, _, _)
Feat1(tr, z, e, i) == IF i > Len(e.v) THEN <<>>
  ELSE (IF ~tr.cont[i] THEN <<e.v[i]>>
        ELSE LET b == z.bee[i] IN IF e.v[i] > b.up.ref THEN Bee1(b.up, 1, e.v[i], tr.fid).f ELSE Bee1(b.down, -1, e.v[i], tr.fid).f) \o Feat1(tr, z, e, i + 1)
RECURSIVE Feat2(_, _, _, _)
Feat2(tr, z, e, i) == IF i > Len(e.v) THEN <<>>
  ELSE (IF ~tr.cont[i] THEN <<e.v[i]>> ELSE Bee2(z.bee[i].n, e.v[i], tr.fid - 1).f) \o Feat2(tr, z, e, i + 1)
Started(e) == [i \in DOMAIN e.v |-> [up |-> Tree(e.v[i]), down |-> Tree(e.v[i]), n |-> Bee2(<<>>, e.v[i], 0).n]]
Ready(z, e) == IF z.bee = <<>> THEN [z EXCEPT !.bee = Started(e)] ELSE z
WFails(tr, z, e) ==
  CASE e.op = "reset" -> LET p == Again(tr, z) IN If(e.obs = tr.E.obs[p], "reset.observation") \cup If(e.form = tr.form, "reset.form")
    [] e.op = "step" ->
         LET h == IF tr.kind = "free" THEN z.H[z.c].p ELSE z.p  t == To(tr.E, h, e.a)  x == tr.E.step[h][e.a] IN
         If(e.obs = tr.E.obs[t], "step.observation") \cup If(e.form = tr.form, "step.form") \cup If(e.r = x.r /\ e.c = 0 - x.r, "step.value") \cup If(e.done = x.done, "step.termination")
         \cup If(tr.kind \notin {"live", "fixed"} \/ e.info = t, "step.info")
    [] e.op = "next" -> LET h == z.H[e.h]  t == To(tr.E, h.p, e.a)  x == tr.E.step[h.p][e.a] IN
         If(e.obs = tr.E.obs[t], "next.state") \cup If(e.r = x.r /\ e.c = 0 - x.r, "next.value") \cup If(e.over = x.done, "next.terminal")
         \cup If(~tr.plan \/ e.goal = GoalOf(Child(tr.E, h, e.a), tr.maxd, tr.byend), "next.goal")
    [] e.op = "again" -> LET h == z.H[e.h] IN
         If(e.obs = tr.E.obs[h.p], "remembered.state") \cup If(e.over = h.done, "remembered.terminal") \cup If(~tr.plan \/ e.goal = GoalOf(h, tr.maxd, tr.byend), "remembered.goal")
    [] e.op = "put" -> {}
    [] e.op = "spaces" -> If(e.same, "spaces")
    [] e.op = "equal" -> If(e.eq = (e.x = e.y), "states.equal") \cup If(e.x # e.y \/ e.samehash, "states.hash")
    [] e.op = "actions" -> LET X == Elements(e.S, e.f) A == SeqToSet(e.acts) n == IF e.b > 0 /\ e.b < Cardinality(X) THEN e.b ELSE Cardinality(X) IN
         If(Cardinality(A) = Len(e.acts), "actions.repeated") \cup If(A \subseteq X, "actions.grid") \cup If(Cardinality(A) = n, "actions.missing") \cup If(e.legal, "actions.legal")
    [] e.op = "bee1" -> LET y == Ready(z, e) IN If(e.got = Feat1(tr, y, e, 1), "features.distance")
    [] e.op = "bee2" -> LET y == Ready(z, e) IN If(e.got = Feat2(tr, y, e, 1), "features.interval")
    [] e.op = "bits" -> If(e.got = BitsOf(e.S, e.v), "features.bits") \cup If(e.n = Len(e.got), "features.number")
    [] e.op = "bitsof" -> \* two observations of one space
         If((e.gx = e.gy) = (e.x = e.y), "features.faithful") \cup If(Len(e.gx) = e.n /\ Len(e.gy) = e.n, "features.number")
    [] e.op = "codec" -> \* a space listing its elements: numbered from 1 by their first position
         If(e.els = e.want, "space.elements") \cup If(e.has /\ ~e.hasnot, "space.contains") \cup If(e.unw = e.q /\ e.size = e.n, "space.unwrapped")
         \cup If(e.back = e.q /\ e.json = e.q, "space.roundtrip") \cup If(\A i \in DOMAIN e.drawn : e.drawn[i] \in 1..e.n, "space.sample")
    [] e.op = "row" -> \* a space of records
         If(e.has = (\A i \in DOMAIN e.v : e.v[i] < e.n[i]), "space.contains") \cup If(e.unw = <<e.v>>, "space.unwrapped") \cup If(e.back = <<e.v>> /\ e.json = <<e.v>>, "space.roundtrip")
         \cup If(\A i \in DOMAIN e.drawn : e.drawn[i] \in 0..(e.n[i] - 1), "space.sample")
    [] OTHER -> {"unknown"}
WNext(tr, z, e) ==
  CASE e.op = "reset" -> LET p == Again(tr, z) IN
         [z EXCEPT !.p = p, !.k = @ + 1, !.init = IF @ = 0 THEN p ELSE @, !.H = Append(@, Root(p)), !.c = Len(z.H) + 1]
    [] e.op = "step" -> IF tr.kind = "free" THEN [z EXCEPT !.H = Append(@, Child(tr.E, z.H[z.c], e.a)), !.c = Len(z.H) + 1]
         ELSE LET h == [p |-> z.p, d |-> 0, done |-> FALSE] IN [z EXCEPT !.p = To(tr.E, z.p, e.a), !.H = Append(@, Child(tr.E, h, e.a))]
    [] e.op = "next" -> [z EXCEPT !.H = Append(@, Child(tr.E, z.H[e.h], e.a))]
    [] e.op = "put" -> IF tr.kind = "free" THEN [z EXCEPT !.c = e.h] ELSE [z EXCEPT !.p = z.H[e.h].p, !.init = z.H[e.h].p]
    [] e.op = "bee1" -> LET y == Ready(z, e) IN [y EXCEPT !.bee = [i \in DOMAIN e.v |-> IF ~tr.cont[i] THEN y.bee[i] ELSE
         IF e.v[i] > y.bee[i].up.ref THEN [y.bee[i] EXCEPT !.up = Bee1(@, 1, e.v[i], tr.fid).t] ELSE [y.bee[i] EXCEPT !.down = Bee1(@, -1, e.v[i], tr.fid).t]]]
    [] e.op = "bee2" -> LET y == Ready(z, e) IN [y EXCEPT !.bee = [i \in DOMAIN e.v |-> IF tr.cont[i] THEN [y.bee[i] EXCEPT !.n = Bee2(@, e.v[i], tr.fid - 1).n] ELSE y.bee[i]]]
    [] OTHER -> z
=============================================================================
