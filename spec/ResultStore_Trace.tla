------------------------- MODULE ResultStore_Trace -------------------------
EXTENDS ResultStore, TraceBase
(* tr.dir, tr.lim (0: unlimited), tr.dim: components of the fitnesses.     *)
(* z: what was offered so far, and the points offered to add_point         *)
SInit(tr) == [dup |-> 0, off |-> <<>>, pts |-> <<>>, fin |-> FALSE]
SNext(tr, z, e) ==
  CASE e.op = "new" -> [z EXCEPT !.off = e.offers, !.dup = Len(e.offers) - Cardinality(Ids(e.offers))]
    [] e.op = "add" -> [z EXCEPT !.off = Append(z.off, [id |-> e.id, fit |-> e.fit]), !.fin = FALSE]
    [] e.op = "point" -> [z EXCEPT !.pts = Append(z.pts, [id |-> e.id, fit |-> e.fit])]
    [] e.op = "final" -> [z EXCEPT !.fin = TRUE, !.pts = z.off]
    [] OTHER -> z
(* a returned solution comes with its own fitness *)
Own(z, r) == r.id \in Ids(z.off) /\ r.fit = FitOf(z.off, r.id)
Back(q) == IF Len(q) = 0 THEN <<>> ELSE q
SFails(tr, z, e) ==
  CASE e.op \in {"new", "add", "point", "final"} -> {}
    [] e.op = "best" -> \* [how, id, fit]; id 0: none
         IF z.off = <<>> THEN If(e.id = 0, "best.none")
         ELSE If(Own(z, e), "best.own")
              \cup If(e.id \in BestIds(tr.dir, z.off), "best.best")
              \cup If((tr.dim = 1 /\ e.how = "fit") => e.id = FirstBest(tr.dir, z.off), "best.first")
              \cup If((tr.dim = 1 /\ e.how = "last") => (z.dup > 0 \/ e.id = LastBest(tr.dir, z.off)), "best.last")
    [] e.op = "other" -> \* get_random_solution: not a best one when there is a choice
         If(Own(z, e), "best.own")
         \cup If(tr.dim = 1 => (e.id \in BestIds(tr.dir, z.off) => Ids(z.off) = BestIds(tr.dir, z.off)), "best.other")
    [] e.op = "list" -> \* every solution with its fitness, once (but for duplicates of the list given at construction)
         If({e.got[k].id : k \in DOMAIN e.got} = Ids(z.off) /\ Len(e.got) = Cardinality(Ids(z.off)) + z.dup /\ (\A k \in DOMAIN e.got : Own(z, e.got[k])), "store.all")
    [] e.op = "rank" ->
         IF z.fin THEN If(e.got = Ranking(tr.dir, z.off, tr.lim), "store.ranking")
         ELSE If(SameBag(e.got, Ranking(tr.dir, z.off, tr.lim)), "store.ranking")
    [] e.op = "front" ->
         LET F == [k \in DOMAIN e.got |-> e.got[k].id] IN
         If(SeqToSet(F) = ParetoIds(tr.dir, z.pts) /\ e.len = Len(F), "front.nondominated")
         \cup If(\A k \in DOMAIN e.got : e.got[k].id \in Ids(z.pts) => e.got[k].fit = FitOf(z.pts, e.got[k].id), "best.own")
    [] e.op = "extremes" ->
         If(Len(e.got) = tr.dim /\ \A k \in DOMAIN e.got :
              e.got[k].fit \in Extreme(tr.dir, {FitOf(z.pts, i) : i \in Ids(z.pts)}, k) /\ e.got[k].id \in ParetoIds(tr.dir, z.pts), "front.extreme")
    [] e.op = "bestby" -> \* the best solution of one store for one objective
         If(Own(z, e) /\ e.fit \in Extreme(tr.dir, {FitOf(z.off, i) : i \in Ids(z.off)}, e.k), "best.objective")
    [] e.op = "cmp" -> \* two vectors compared with every operator
         LET ab == Dominates("max", e.a, e.b)  ba == Dominates("max", e.b, e.a) IN
         If(e.gt = ab /\ e.lt = ba, "order.dominance")
         \cup If(e.eq = (~ab /\ ~ba), "order.equal")
         \cup If(e.ge = (ab \/ (~ab /\ ~ba)) /\ e.le = (ba \/ (~ab /\ ~ba)), "order.weak")
         \cup If(e.times = [k \in DOMAIN e.a |-> e.a[k] * e.c], "order.scale")
         \cup If(e.dist2 = FoldFunction(LAMBDA x, acc : x + acc, 0, [k \in DOMAIN e.a |-> (e.a[k] - e.b[k]) * (e.a[k] - e.b[k])]), "order.distance")
    [] e.op = "dedup" ->
         If(e.got = SetToSortSeq(FirstOfEach(e.contents), LAMBDA a, b : a < b), "store.dedup")
    [] OTHER -> {"unknown"}
=============================================================================
