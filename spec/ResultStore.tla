---------------------------- MODULE ResultStore ----------------------------
(* A store of solutions with the fitness they were given.  A solution is   *)
(* offered any number of times, always with the same fitness; it counts    *)
(* once.  Fitnesses are vectors: one component is the scalar case.         *)
(* dir: "max" or "min".  `Algorithm' part: what an implementation may do   *)
(* incrementally; `Declaration' part: what must be true.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
(* --- dominance --- *)
Geq(a, b) == \A k \in DOMAIN a : a[k] >= b[k]
Dominates(dir, a, b) == IF dir = "max" THEN Geq(a, b) /\ a # b ELSE Geq(b, a) /\ a # b
NonDominated(dir, F) == {a \in F : \A b \in F : ~Dominates(dir, b, a)}
(* --- declaration: offers is a sequence of [id, fit] --- *)
FitOf(offers, i) == LET k == CHOOSE k \in DOMAIN offers : offers[k].id = i IN offers[k].fit
Ids(offers) == {offers[k].id : k \in DOMAIN offers}
Better(dir, a, b) == Dominates(dir, a, b)
BestIds(dir, offers) == {i \in Ids(offers) : \A j \in Ids(offers) : ~Better(dir, FitOf(offers, j), FitOf(offers, i))}
FirstOffer(offers, i) == CHOOSE k \in DOMAIN offers : offers[k].id = i /\ \A m \in 1..(k - 1) : offers[m].id # i
FirstBest(dir, offers) == CHOOSE i \in BestIds(dir, offers) : \A j \in BestIds(dir, offers) : FirstOffer(offers, i) <= FirstOffer(offers, j)
LastBest(dir, offers) == CHOOSE i \in BestIds(dir, offers) : \A j \in BestIds(dir, offers) : FirstOffer(offers, i) >= FirstOffer(offers, j)
(* scalar fitnesses of the distinct solutions, best first, at most lim of them (lim = 0: no limit) *)
Scalars(offers) == SetToSortSeq({<<FitOf(offers, i)[1], i>> : i \in Ids(offers)},
                                LAMBDA a, b : a[1] > b[1] \/ (a[1] = b[1] /\ FirstOffer(offers, a[2]) < FirstOffer(offers, b[2])))
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
Ranking(dir, offers, lim) ==
  LET all == [k \in 1..Cardinality(Ids(offers)) |-> Scalars(offers)[k][1]]
      o == IF dir = "max" THEN all ELSE Rev(all)
  IN IF lim = 0 \/ lim >= Len(o) THEN o ELSE SubSeq(o, 1, lim)
ParetoIds(dir, offers) == LET N == NonDominated(dir, {FitOf(offers, i) : i \in Ids(offers)})
                      IN {i \in Ids(offers) : FitOf(offers, i) \in N}
Extreme(dir, F, k) == {a \in F : \A b \in F : IF dir = "max" THEN a[k] >= b[k] ELSE a[k] <= b[k]}
(* keep the first solution of each distinct content *)
FirstOfEach(q) == {k \in DOMAIN q : \A m \in 1..(k - 1) : q[m] # q[k]}
SameBag(p, q) == Len(p) = Len(q) /\ \A x \in {p[k] : k \in DOMAIN p} \cup {q[k] : k \in DOMAIN q} :
   Cardinality({k \in DOMAIN p : p[k] = x}) = Cardinality({k \in DOMAIN q : q[k] = x})
(* --- algorithm: one insertion --- *)
PutRank(dir, rank, lim, f) ==
  IF lim = 0 \/ Len(rank) < lim THEN Append(rank, f)
  ELSE LET w == CHOOSE w \in DOMAIN rank : \A k \in DOMAIN rank : IF dir = "max" THEN rank[w] <= rank[k] ELSE rank[w] >= rank[k]
       IN IF (IF dir = "max" THEN f > rank[w] ELSE f < rank[w]) THEN [rank EXCEPT ![w] = f] ELSE rank
PutFront(dir, front, offers, i, f) ==
  IF \E j \in front : Dominates(dir, FitOf(offers, j), f) THEN front
  ELSE {j \in front : ~Dominates(dir, f, FitOf(offers, j))} \cup {i}
=============================================================================
