--------------------------- MODULE Routing_Trace ---------------------------
(* Calls on tours and routes.  The instance in force is z (e.op = "problem" *)
(* puts another one in force); distances are reported in its unit.          *)
EXTENDS Routing, TraceBase
RInit(tr) == tr.I
Known(z, q) == \A k \in DOMAIN q : q[k] \in 1..z.n
TourEv(z, e) == \* a tour object: its permutation, ranks, legs, length, what evaluate says, whether it is accepted
   If(e.legs = TourLegs(z, e.x), "legs") \cup If(e.len = Length(z, e.x) /\ e.obj = e.len, "length") \cup If(e.ranks = Ranks(z, e.x), "encodings")
   \cup If(e.ok = (Tour(z, e.x) /\ e.a = z.a /\ e.b = z.b), "satisfy") \cup If(e.x = e.keep, "tour.changed")
MoveEv(z, e) == \* e.x the tour before, e.y after, e.back after undoing
   LET moved == If(Tour(z, e.y), "move.tour")
       worth == If(e.len = Length(z, e.y) /\ e.obj = e.len, "move.length") \cup If(e.legs = TourLegs(z, e.y), "move.legs") \cup If(e.ranks = Ranks(z, e.y), "move.encodings")
       undo == If(e.back = e.x /\ e.blen = Length(z, e.x) /\ e.blegs = TourLegs(z, e.x), "move.undo")
       flip == \E c \in Cuts(e.x) : e.y = Flip(e.x, c[1], c[2])
       gain == If(e.impr => Length(z, e.y) <= Length(z, e.x), "move.improves")
       cr == IF e.mut = "cross" THEN Crossings(z, e.x) ELSE {}
   IN moved \cup (IF ~Tour(z, e.y) THEN {} ELSE worth \cup undo \cup
      (CASE e.mut = "2opt" -> If(flip \/ (e.impr /\ e.y = e.x), "move.reversal") \cup gain
                              \cup If(e.all => (Length(z, e.y) = BestFlip(z, e.x) \/ (e.impr /\ BestFlip(z, e.x) >= Length(z, e.x) /\ e.y = e.x)), "move.best")
         [] e.mut = "cross" -> If(e.y = e.x \/ (\E c \in cr : e.y = Flip(e.x, c[1], c[2])), "move.crossing") \cup gain
                               \cup If(cr # {} /\ z.a # z.b /\ ~e.impr => (\E c \in cr : e.y = Flip(e.x, c[1], c[2])), "move.crossing")
                               \cup If(cr # {} /\ z.a # z.b /\ Cardinality(cr) <= 5 /\ ~e.impr => Length(z, e.y) = Min({Length(z, Flip(e.x, c[1], c[2])) : c \in cr}), "move.best")
         [] e.mut = "swap" -> If(\E c \in Cuts(e.x) : e.y = Exchange(e.x, c[1], c[2]), "move.exchange")
         [] e.mut = "other" -> {}
         [] OTHER -> {"unknown"}))
RFails(tr, z, e) ==
  CASE e.op = "problem" -> {}
    [] e.op = "tour" -> IF Known(z, e.x) /\ Len(e.x) = Cardinality(Inner(z)) THEN TourEv(z, e) ELSE {"tour.nodes"}
    [] e.op = "code" -> If(e.obj = Length(z, e.x), "evaluate.encoding")
    [] e.op = "recode" -> If(e.r = Ranks(z, e.x) /\ e.y = e.x, "encodings")
    [] e.op = "move" -> IF Known(z, e.y) THEN MoveEv(z, e) ELSE {"move.tour"}
    [] e.op = "crossings" -> LET got == {<<e.c[k][1] + 1, e.c[k][2] + 1>> : k \in DOMAIN e.c} IN
         If(got \subseteq Crossings(z, e.x), "crossing.false") \cup If(e.full => (Len(e.c) >= 6 \/ got = Crossings(z, e.x)), "crossing.missed") \cup If(Cardinality(got) = Len(e.c), "crossing.repeated")
    [] e.op = "found" -> \* the best tour of a search or solver
         IF ~Known(z, e.x) \/ ~Tour(z, e.x) THEN {"found.tour"}
         ELSE If(e.fit = Length(z, e.x) /\ e.len = e.fit, "found.fitness") \cup If(e.start > 0 => Length(z, e.x) <= e.start, "found.worse") \cup If(e.exact => Length(z, e.x) = Shortest(z), "found.optimal")
              \cup If(e.local => (Cuts(e.x) = {} \/ Length(z, e.x) <= BestFlip(z, e.x)), "found.local")
    [] e.op = "greedy" -> \* the circuit from node 1, g the distances that rank the nodes
         If(Len(e.x) = z.n /\ SeqSet(e.x) = 1..z.n /\ e.x[1] = 1, "greedy.tour")
         \cup (IF SeqSet(e.x) # 1..z.n THEN {} ELSE If(e.len = Way(z.d, e.x[1], Tail(e.x), e.x[1]), "greedy.length") \cup If(e.near => NearestNext(z.m, e.x), "greedy.nearest"))
    [] e.op = "circuit" -> If(e.legs = Legs(z.d, e.x[1], Tail(e.x), e.x[1]) /\ e.len = Total(e.legs), "circuit")
    [] e.op = "matrix" -> If(e.d = z.d, "matrix")
    [] e.op = "points" -> If(e.n = z.n /\ e.pt = z.pt /\ e.a = z.a /\ e.b = z.b, "parsed")
    (* routes *)
    [] e.op = "routes" ->
         IF \E v \in DOMAIN e.r : ~Known(z, e.r[v]) THEN {"routes.nodes"} ELSE
         If(e.legs = [v \in DOMAIN e.r |-> RouteLegs(z, v, e.r[v])], "routes.legs") \cup If(e.len = RouteLength(z, e.r) /\ e.obj = e.len, "routes.length")
         \cup If(e.load = [v \in DOMAIN e.r |-> Load(z, v, e.r[v])], "routes.load") \cup If(e.viol = OverLoad(z, e.r), "routes.violation") \cup If(e.ok = Serves(z, e.r), "routes.satisfy")
         \cup If(e.keep = e.r, "routes.changed")
    [] e.op = "plan" ->
         (CASE e.by = "greedy" -> If(e.r = Filled(z), "plan.filled")
            [] e.by = "first" -> If(e.r = AllInFirst(z), "plan.first")
            [] e.by = "solver" -> If(Serves(z, e.r), "plan.serves")
            [] OTHER -> {"unknown"})
         \cup If(e.fit = 0 - RouteLength(z, e.r), "plan.fitness")   \* the length is the single objective
    [] e.op = "noplan" -> {}
    [] e.op = "route" -> If(e.legs = RouteLegs(z, e.v, e.p) /\ e.len = Total(e.legs), "route.compiled")
    [] e.op = "near" -> If(\A i \in DOMAIN e.q : Nearest(z.d, i, e.q[i]) /\ SeqSet(e.q[i]) = 1..z.n, "nearest.order")
    [] e.op = "pruned" -> \* adjacency kept: the k nearest and the depot, with their distances
         If(e.d = z.d, "matrix") \cup If(\A i, j \in 1..z.n : e.m[i][j] \in {0, z.d[i][j]}, "pruned.weight")
         \cup If(\A i \in 1..z.n : e.m[i][1] = z.d[i][1], "pruned.depot")
         \cup If(\A i, j \in 1..z.n : e.m[i][j] = 0 /\ z.d[i][j] > 0 => Cardinality({k \in 1..z.n : z.d[i][k] <= z.d[i][j]} \ {j}) >= e.k, "pruned.near")
         \cup If(e.k < z.n => \A i \in 1..z.n : Cardinality({j \in 2..z.n : e.m[i][j] > 0}) <= e.k, "pruned.many")
    [] e.op = "network" -> If({<<q[1], q[2]>> : q \in SeqSet(e.e)} = {c \in (1..z.n) \X (1..z.n) : z.d[c[1]][c[2]] > 0} \cup {<<1, 1>>}, "network.edges")
         \cup If(\A q \in SeqSet(e.e) : q[3] = z.d[q[1]][q[2]], "network.weight")
    [] e.op = "fleet" -> If(e.need = z.need /\ e.pt = z.pt /\ e.room = z.room /\ e.from = z.from /\ e.to = z.to, "parsed")
    [] OTHER -> {"unknown"}
RNext(tr, z, e) == IF e.op = "problem" THEN e.I ELSE z
=============================================================================
