------------------------------- MODULE Exact -------------------------------
(* The exact solvers (constraint models, linear programmes) and the large   *)
(* neighbourhood searches built on them, for knapsack ("k"), colouring      *)
(* ("c") and facility ("f") problems.  A neighbourhood search keeps part of *)
(* the plan in hand, and goes to a best plan among those that agree on it.  *)
EXTENDS Combi
Places(kind, P) == CASE kind = "k" -> DOMAIN P.v [] kind = "c" -> 1..P.n [] kind = "f" -> DOMAIN P.need
Valid(kind, P, x) == /\ DOMAIN x = Places(kind, P)
                     /\ \A i \in DOMAIN x : CASE kind = "k" -> x[i] \in {0, 1} [] kind = "c" -> x[i] \in 0..P.n - 1 [] kind = "f" -> x[i] \in DOMAIN P.room
Feasible(kind, P, x) == CASE kind = "k" -> Fits(P, x) [] kind = "c" -> Proper(P, x) [] kind = "f" -> Holds(P, x)
(* what the aggregated objective says, penalties included *)
Worth(kind, P, x) == CASE kind = "k" -> Val(P, x) - 100000 * Over(P, x)
                       [] kind = "c" -> 0 - Colors(x) - 100 * Clash(P, x)
                       [] kind = "f" -> 0 - Cost(P, x) - Setup(P, x) - 10000 * Excess(P, x)
Top(x) == Max({x[i] : i \in DOMAIN x})
(* the values a place may take: what is in hand bounds the colours *)
Values(kind, P, top) == CASE kind = "k" -> {0, 1} [] kind = "c" -> 0..top [] kind = "f" -> DOMAIN P.room
(* the places of S that a search really keeps: the last colour may always be given up *)
Kept(kind, x, S) == IF kind = "c" THEN {i \in S : x[i] < Top(x)} ELSE S

Plans(kind, P, x, K, top) ==  \* all plans that agree with x on K
   LET free == Places(kind, P) \ K IN {[i \in Places(kind, P) |-> IF i \in K THEN x[i] ELSE g[i]] : g \in [free -> Values(kind, P, top)]}
Near2(kind, P, x, S) == {y \in Plans(kind, P, x, Kept(kind, x, S), IF kind = "c" THEN Top(x) ELSE 0) : Feasible(kind, P, y)}
BestOf(kind, P, Q) == Max({Worth(kind, P, y) : y \in Q})
(* what a search minimises: for colours, the highest one *)
Goal(kind, P, x) == IF kind = "c" THEN 0 - Top(x) - 1 ELSE Worth(kind, P, x)
Optimum(kind, P) == CASE kind = "k" -> Best(P) [] kind = "c" -> 0 - Chromatic(P)
                      [] kind = "f" -> LET Q == {y \in [DOMAIN P.need -> DOMAIN P.room] : Holds(P, y)} IN IF Q = {} THEN -99999999 ELSE BestOf(kind, P, Q)
(* colours renumbered in their order *)
Renamed2(x) == [i \in DOMAIN x |-> Cardinality({x[j] : j \in {j \in DOMAIN x : x[j] < x[i]}})]
(* y is a best plan among those that keep some k places of x *)
Moves(kind, P, x, k, y) == \E S \in kSubset(k, Places(kind, P)) :
   /\ \A i \in Kept(kind, x, S) : y[i] = x[i]
   /\ Feasible(kind, P, y)
   /\ LET Q == Near2(kind, P, x, S) IN Q # {} /\ \A z \in Q : Goal(kind, P, y) >= Goal(kind, P, z)
(* how long a search goes on: it stops once more than lim moves in a row did not improve; w are the worths found, b the one in hand *)
RECURSIVE Lasts(_, _, _, _, _)
Lasts(w, b, i, cnt, lim) ==
   IF i > Len(w) THEN Len(w)
   ELSE LET c == IF w[i] > b THEN 0 ELSE cnt + 1 IN IF c > lim THEN i ELSE Lasts(w, Max2(b, w[i]), i + 1, c, lim)
=============================================================================
