---------------------------- MODULE Combi_Trace ----------------------------
(* Calls on a knapsack, colouring, facility or graph object.  The instance  *)
(* in force is z (e.op = "problem" puts another one in force).              *)
EXTENDS Combi, TraceBase
CInit(tr) == tr.I
Fit(w, d) == Total([i \in DOMAIN w |-> w[i] * d[i]])
CFails(tr, z, e) ==
  CASE e.op = "problem" -> {}
    (* knapsack *)
    [] e.op = "kworth" -> If(e.value = Val(z, e.x), "value") \cup If(e.viol = Over(z, e.x), "violation") \cup If(e.ok = Fits(z, e.x), "satisfy") \cup If(e.same, "plan.changed")
    [] e.op = "kcode" -> If(e.value = Val(z, e.x) /\ e.viol = Over(z, e.x), "evaluate.encoding")
    [] e.op = "kmobj" -> If(e.value = Val(z, e.x) /\ e.viol = Over(z, e.x) /\ e.heavy = Heaviest(z, e.x) /\ e.weight = Wgt(z, e.x), "several.objectives") \cup If(e.fit = <<Val(z, e.x), 0 - Heaviest(z, e.x)>>, "several.fitness")
    [] e.op = "kplan" -> \* what a solver returns
         If(Len(e.x) = Len(z.v) /\ \A i \in DOMAIN e.x : e.x[i] \in {0, 1}, "plan.shape")
         \cup (IF Len(e.x) # Len(z.v) THEN {} ELSE
         If(Fits(z, e.x), "plan.feasible") \cup If(e.value = Val(z, e.x) /\ e.weight = Wgt(z, e.x), "plan.worth") \cup If(e.fit = e.value, "plan.fitness")
         \cup (CASE e.by = "dummy" -> If(e.x = Nothing(z), "dummy")
                 [] e.by = "queue" -> If(e.x = GreedyDense(z), "greedy.order")
                 [] e.by = "light" -> If(TiesLight(z) \/ e.x = GreedyLight(z), "greedy.order") \cup If(Full(z, e.x), "greedy.full")
                 [] e.by = "best" -> If(Full(z, e.x), "greedy.full") \cup If(Val(z, e.x) >= Val(z, GreedyDense(z)), "greedy.best")
                                     \cup If(TiesLight(z) \/ Val(z, e.x) = Max2(Val(z, GreedyDense(z)), Val(z, GreedyLight(z))), "greedy.best")
                 [] e.by = "dynamic" -> If(Val(z, e.x) = Best(z), "dynamic.optimal")
                 [] OTHER -> {"unknown"}))
    (* colouring *)
    [] e.op = "cworth" -> If(e.colors = Colors(e.x), "colors") \cup If(e.viol = Clash(z, e.x), "violations") \cup If(e.ok = Proper(z, e.x), "satisfy") \cup If(e.same, "plan.changed")
    [] e.op = "ccode" -> If(e.colors = Colors(e.x) /\ e.viol = Clash(z, e.x), "evaluate.encoding")
    [] e.op = "rename" -> If(e.y = Renamed(e.x), "renaming") \cup If(e.colors = Colors(e.x) /\ e.viol = Clash(z, e.x), "renaming.worth")
    [] e.op = "cplan" ->
         If(Len(e.x) = z.n, "plan.shape")
         \cup (IF Len(e.x) # z.n THEN {} ELSE
         If(Proper(z, e.x), "plan.proper") \cup If(e.colors = Colors(e.x) /\ e.viol = 0, "plan.worth") \cup If(e.fit = 0 - Colors(e.x), "plan.fitness")
         \cup If(e.by # "dummy" => Colors(e.x) <= Degree(z) + 1 /\ e.x = Renamed(e.x), "greedy.colors")
         \cup If(e.by = "dummy" => Colors(e.x) = z.n, "dummy") \cup If(e.by = "best" => \A k \in DOMAIN e.others : Colors(e.x) <= e.others[k], "greedy.best"))
    [] e.op = "cliques" -> LET q == [k \in DOMAIN e.q |-> SeqToSet(e.q[k])] IN
         If(\A k \in DOMAIN q : MaxClique(z, q[k]) /\ Cardinality(q[k]) = Len(e.q[k]), "cliques.maximal") \cup If(\A a, b \in DOMAIN q : a # b => q[a] # q[b], "cliques.repeated")
         \cup If(~e.cut => SeqToSet(q) = MaxCliques(z), "cliques.all") \cup If(e.cut => e.max >= 0 /\ Len(q) = e.max, "cliques.number") \cup If(e.max < 0 => ~e.cut, "cliques.flag")
    (* facility *)
    [] e.op = "fworth" -> If(e.cost = Cost(z, e.x), "cost") \cup If(e.setup = Setup(z, e.x), "setup") \cup If(e.viol = Excess(z, e.x), "violation") \cup If(e.ok = Holds(z, e.x), "satisfy")
         \cup If({d[1] : d \in SeqToSet(e.per)} = Used(z, e.x) /\ Len(e.per) = Cardinality(Used(z, e.x)), "details.facilities")
         \cup If(\A d \in SeqToSet(e.per) : d[2] = Load(z, e.x, d[1]) /\ d[3] = CostOf(z, e.x, d[1]) /\ d[4] = z.setup[d[1]], "details.worth")
         \cup If(\A k \in DOMAIN e.per : SeqToSet(e.who[k]) = OfF(z, e.x, e.per[k][1]), "details.customers") \cup If(e.same, "plan.changed")
    [] e.op = "fcode" -> If(e.cost = Cost(z, e.x) /\ e.setup = Setup(z, e.x) /\ e.viol = Excess(z, e.x), "evaluate.encoding")
    [] e.op = "fplan" -> IF e.by = "dummy" THEN If(e.x = [c \in Cust(z) |-> 1], "dummy")
         ELSE If(e.x = Sequential(z), "sequential") \cup If(Holds(z, e.x), "plan.feasible") \cup If(e.fit = 0 - Cost(z, e.x) - Setup(z, e.x), "plan.fitness")
    [] e.op = "fstuck" -> If(Sequential(z) = <<>>, "sequential.stuck")
    (* graph *)
    [] e.op = "node" -> If(SeqToSet(e.succ) = Succ(z, e.i) /\ Len(e.succ) = Cardinality(Succ(z, e.i)), "neighbours") \cup If(SeqToSet(e.pred) = Pred(z, e.i) /\ Len(e.pred) = Cardinality(Pred(z, e.i)), "predecessors")
         \cup If(SeqToSet(e.before) = Before(z, e.i), "ancestors") \cup If(e.mark = z.mark[e.i], "node.attribute")
         \cup If(e.nx = e.succ, "networkx") \cup If(e.edge = [j \in 1..z.n |-> Lab(z, e.i, j)], "edge.attribute")
    [] e.op = "whole" -> If(SeqToSet(e.nodes) = 1..z.n /\ Len(e.nodes) = z.n, "nodes") \cup If(SeqToSet(e.edges) = {<<i, j>> \in (1..z.n) \X (1..z.n) : j \in Succ(z, i)} /\ Len(e.edges) = Cardinality(SeqToSet(e.edges)), "edges")
         \cup If(z.dir => (e.loop # <<>>) = Cyclic(z), "loop.found") \cup If(\A k \in DOMAIN e.loop : e.loop[k][2] \in Succ(z, e.loop[k][1]) /\ e.loop[k][2] = e.loop[(k % Len(e.loop)) + 1][1], "loop.closed")
    [] OTHER -> {"unknown"}
CNext(tr, z, e) == IF e.op = "problem" THEN e.I ELSE z
=============================================================================
