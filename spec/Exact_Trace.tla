---------------------------- MODULE Exact_Trace ----------------------------
EXTENDS Exact, TraceBase
XInit(tr) == tr.I
Sound(kd, z, e) == \* a plan with its fitness
   If(Valid(kd, z, e[1]), "plan.shape") \cup (IF ~Valid(kd, z, e[1]) THEN {} ELSE If(Feasible(kd, z, e[1]), "plan.feasible") \cup If(e[2] = Worth(kd, z, e[1]), "plan.fitness"))
All(kd, z, q) == UNION {Sound(kd, z, q[k]) : k \in DOMAIN q}
(* the plans that may be in hand before move i: colourings may have gaps, any of those at hand is developed *)
Hand(kd, z, e, i) == IF kd = "c" /\ e.how = "constraints" THEN {e.out[j][1] : j \in DOMAIN e.out}
                     ELSE IF kd = "c" THEN IF i = 1 THEN {e.first[1]} ELSE {e.moves[i - 1][1], e.moves[i - 1][2]}
                     ELSE LET q == {e.first[1]} \cup UNION {{e.moves[j][1], e.moves[j][2]} : j \in 1..i - 1}
                              b == BestOf(kd, z, q) IN {x \in q : Worth(kd, z, x) = b}
XFails(tr, z, e) ==
  CASE e.op = "exact" ->
        All(e.kind, z, e.seen) \cup Sound(e.kind, z, <<e.x, e.fit>>)
        \cup If(Valid(e.kind, z, e.x) => Worth(e.kind, z, e.x) = Optimum(e.kind, z), "optimal")
    [] e.op = "lns" ->
        LET kd == e.kind f == All(kd, z, e.out) \cup (IF e.first = <<>> THEN {} ELSE Sound(kd, z, e.first))
            n == Len(e.moves) ok == \A i \in 1..n : Valid(kd, z, e.moves[i][1]) /\ Valid(kd, z, e.moves[i][2]) IN
        If(ok, "plan.shape") \cup f \cup
        (IF f # {} \/ ~ok THEN {} ELSE
         LET w == [i \in 1..n |-> Worth(kd, z, e.moves[i][2])]
             free(i) == i = 1 /\ e.free IN
         UNION {If(IF free(i) THEN Worth(kd, z, e.moves[i][1]) = Optimum(kd, z) ELSE \E x \in Hand(kd, z, IF e.first = <<>> THEN [e EXCEPT !.first = e.moves[1]] ELSE e, i) : Moves(kd, z, x, e.keep, e.moves[i][1]), "move.best")
                \cup If(Feasible(kd, z, e.moves[i][2]) /\ w[i] >= Worth(kd, z, e.moves[i][1]), "move.post")
                \cup If(kd = "c" /\ e.moves[i][1] # e.moves[i][2] => e.moves[i][2] = Renamed2(e.moves[i][1]), "move.renamed") : i \in 1..n}
         \cup If(kd # "c" => \A i \in 2..n : w[i] >= w[i - 1], "never.worse")
         \cup If(n = Lasts([i \in 1..e.iters |-> IF i <= n THEN w[i] ELSE w[n]], IF e.first = <<>> THEN -99999999 ELSE e.first[2], 1, 0, e.lim), "length")
         \cup If({e.moves[i][1] : i \in 1..n} \cup {e.moves[i][2] : i \in 1..n} \subseteq {e.out[j][1] : j \in DOMAIN e.out}, "kept")
         \cup If(e.first # <<>> => e.first \in SeqToSet(e.out), "kept.first")
         \cup If(e.best[1] \in {e.out[j][1] : j \in DOMAIN e.out} /\ \A j \in DOMAIN e.out : e.out[j][2] <= e.best[2], "best"))
    [] e.op = "descent" -> \* the built-in search of the facility solver
        Sound("f", z, <<e.x, e.fit>>) \cup If(Valid("f", z, e.x) => /\ Worth("f", z, e.x) >= Worth("f", z, e.first)
                                                                 /\ (e.keep = 0 => Worth("f", z, e.x) = Optimum("f", z))
                                                                 /\ (e.keep = Len(z.need) => e.x = e.first), "descent")
        \cup If(e.once /\ Valid("f", z, e.x) => Moves("f", z, e.first, e.keep, e.x) \/ (e.x = e.first /\ \E y \in Plans("f", z, e.x, {}, 0) : Moves("f", z, e.x, e.keep, y) /\ Worth("f", z, y) = Worth("f", z, e.x)), "descent.once")
    [] e.op = "hold" -> \* with the plan x partly held; once released
        Sound(e.kind, z, e.one) \cup Sound(e.kind, z, e.two)
        \cup If(Valid(e.kind, z, e.one[1]) => Moves(e.kind, z, e.x, e.keep, e.one[1]), "held")
        \cup If(Valid(e.kind, z, e.two[1]) => Worth(e.kind, z, e.two[1]) = Optimum(e.kind, z), "released")
    [] e.op = "compact" -> If(e.y = Renamed2(e.x) /\ e.old = e.x /\ e.size = 2, "compacted") \cup If(Valid("c", z, e.y) /\ Proper(z, e.x) => e.fit = Worth("c", z, e.x), "compacted.fitness")
    [] e.op = "prune" -> \* a pair is left open when the facility is among the cheapest, or among the nearest to the customer
        LET F == DOMAIN z.room cheaper(f) == Cardinality({g \in F : z.setup[g] < z.setup[f]}) ascheap(f) == Cardinality({g \in F : z.setup[g] <= z.setup[f]})
            closer(f, c) == Cardinality({g \in F : z.d[g][c] < z.d[f][c]}) asclose(f, c) == Cardinality({g \in F : z.d[g][c] <= z.d[f][c]}) IN
        If(e.d = z.d, "distances")
        \cup If(\A f \in F, c \in Cust(z) : (ascheap(f) <= e.cheap \/ asclose(f, c) <= e.near) => e.may[f][c] = 2, "pruned")
        \cup If(\A f \in F, c \in Cust(z) : (cheaper(f) >= e.cheap /\ closer(f, c) >= e.near) => e.may[f][c] = 0, "left.open")
    [] e.op = "within" ->
        Sound("f", z, <<e.x, e.fit>>) \cup
        (IF ~Valid("f", z, e.x) THEN {} ELSE
         LET Q == {y \in [DOMAIN z.need -> DOMAIN z.room] : Holds(z, y) /\ \A c \in Cust(z) : e.may[y[c]][c] = 2} IN
         If(e.x \in Q, "within") \cup If(Q # {} => Worth("f", z, e.x) = BestOf("f", z, Q), "within.optimal"))
    [] OTHER -> {"unknown"}
XNext(tr, z, e) == z
=============================================================================
