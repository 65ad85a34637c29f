--------------------------- MODULE ResultStore_MC ---------------------------
(* The incremental store (bounded ranking that replaces its worst entry, best solution updated on strict   *)
(* improvement, incremental front) agrees with the declaration after every sequence of offers.             *)
EXTENDS ResultStore, TLC
CONSTANTS NIDS, VALS, DIMS, MAXLEN
VARIABLES dir, lim, fit, offers, rank, best, front
vars == <<dir, lim, fit, offers, rank, best, front>>
Fits == UNION {[1..d -> VALS] : d \in DIMS}
Init == /\ dir \in {"max", "min"}
        /\ lim \in 0..2
        /\ fit \in UNION {[1..NIDS -> [1..d -> VALS]] : d \in DIMS}
        /\ offers = <<>> /\ rank = <<>> /\ best = 0 /\ front = {}
Offer(i) ==
  LET o == Append(offers, [id |-> i, fit |-> fit[i]])
      new == i \notin Ids(offers)
  IN /\ Len(offers) < MAXLEN
     /\ offers' = o
     /\ rank' = IF new THEN PutRank(dir, rank, lim, fit[i][1]) ELSE rank
     /\ best' = IF best = 0 \/ Better(dir, fit[i], fit[best]) THEN i ELSE best
     /\ front' = PutFront(dir, front, o, i, fit[i])
     /\ UNCHANGED <<dir, lim, fit>>
Next == \E i \in 1..NIDS : Offer(i)
Spec == Init /\ [][Next]_vars
BestOK == offers # <<>> => best \in BestIds(dir, offers)
FirstOK == (offers # <<>> /\ Len(fit[1]) = 1) => best = FirstBest(dir, offers)
RankOK == SameBag(rank, Ranking(dir, offers, lim))
FrontOK == front = ParetoIds(dir, offers)
BestOnFront == offers # <<>> => /\ best \in front
                                /\ BestIds(dir, offers) = front
ExtremesOK == offers # <<>> => \A k \in DOMAIN fit[1] :
   Extreme(dir, {fit[i] : i \in front}, k) \cap {fit[i] : i \in Ids(offers)} \subseteq Extreme(dir, {fit[i] : i \in Ids(offers)}, k)
DominanceOrder == \A a, b, c \in {fit[i] : i \in 1..NIDS} :
   /\ ~Dominates(dir, a, a)
   /\ ~(Dominates(dir, a, b) /\ Dominates(dir, b, a))
   /\ (Dominates(dir, a, b) /\ Dominates(dir, b, c)) => Dominates(dir, a, c)
=============================================================================
