------------------------------ MODULE Routing ------------------------------
(* Travelling salesman tours and vehicle routes: what a tour is worth, the  *)
(* moves of the local searches and what they change, the greedy plans.      *)
(* A tour instance Z has nodes 1..Z.n, distances Z.d, ends Z.a and Z.b (the *)
(* permutation lists the other nodes); a routing instance adds needs Z.need,*)
(* and for each vehicle room Z.room, ends Z.from and Z.to.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Total(q) == FoldLeft(LAMBDA u, w : u + w, 0, q)
Max2(u, w) == IF u > w THEN u ELSE w
SeqSet(q) == {q[i] : i \in DOMAIN q}
(*--- one way from an end to the other ------------------------------------*)
Legs(d, a, p, b) == LET q == <<a>> \o p \o <<b>> IN [i \in 1..Len(p) + 1 |-> d[q[i]][q[i + 1]]]
Way(d, a, p, b) == Total(Legs(d, a, p, b))
(*--- tours ---------------------------------------------------------------*)
Inner(Z) == (1..Z.n) \ {Z.a, Z.b}
Tour(Z, p) == Len(p) = Cardinality(Inner(Z)) /\ SeqSet(p) = Inner(Z)
TourLegs(Z, p) == Legs(Z.d, Z.a, p, Z.b)
Length(Z, p) == Way(Z.d, Z.a, p, Z.b)
InOrder(S) == SetToSortSeq(S, LAMBDA i, j : i < j)
(* the other encoding: ranks among the inner nodes, from 0 *)
Ranks(Z, p) == [k \in DOMAIN p |-> Cardinality({j \in Inner(Z) : j < p[k]})]
OfRanks(Z, r) == [k \in DOMAIN r |-> InOrder(Inner(Z))[r[k] + 1]]
Flip(p, i, j) == [k \in DOMAIN p |-> IF k \in i..j THEN p[i + j - k] ELSE p[k]]
Exchange(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
Cuts(p) == {c \in (1..Len(p)) \X (1..Len(p)) : c[1] < c[2]}
(* what a reversal changes, from the ends of the segment only *)
At(Z, p, k) == IF k = 0 THEN Z.a ELSE IF k > Len(p) THEN Z.b ELSE p[k]
FlipGain(Z, p, i, j) == Z.d[At(Z, p, i - 1)][p[j]] - Z.d[At(Z, p, i - 1)][p[i]] - Z.d[p[j]][At(Z, p, j + 1)] + Z.d[p[i]][At(Z, p, j + 1)]
FlipLegs(Z, p, l, i, j) == SubSeq(l, 1, i - 1) \o <<Z.d[At(Z, p, i - 1)][p[j]]>> \o Reverse(SubSeq(l, i + 1, j)) \o <<Z.d[p[i]][At(Z, p, j + 1)]>> \o SubSeq(l, j + 2, Len(l))
BestFlip(Z, p) == Min({Length(Z, Flip(p, c[1], c[2])) : c \in Cuts(p)})
Perms(S) == {q \in [1..Cardinality(S) -> S] : SeqSet(q) = S}
Shortest(Z) == Min({Length(Z, q) : q \in Perms(Inner(Z))})
(* legs that cross in the plane: Z.pt[i] = <<x, y>>; (i, j) reverses p[i..j] *)
Left(A, B, C) == (C[2] - A[2]) * (B[1] - A[1]) > (B[2] - A[2]) * (C[1] - A[1])
Cross(A, B, C, D) == (Left(A, C, D) # Left(B, C, D)) /\ (Left(A, B, C) # Left(A, B, D))
Crossings(Z, p) == {c \in (2..Len(p)) \X (1..Len(p) - 1) : c[1] < c[2] /\ Cross(Z.pt[p[c[1] - 1]], Z.pt[p[c[1]]], Z.pt[p[c[2]]], Z.pt[p[c[2] + 1]])}
(* always to a nearest node not visited yet *)
NearestNext(g, p) == \A k \in 1..Len(p) - 1 : \A m \in k + 1..Len(p) : g[p[k]][p[k + 1]] <= g[p[k]][p[m]]
(*--- routes: R is one sequence of customers per vehicle -------------------*)
Vehicles(Z) == DOMAIN Z.room
Depots(Z) == SeqSet(Z.from) \cup SeqSet(Z.to)
Customers(Z) == (1..Z.n) \ Depots(Z)
EndNeed(Z, v) == Z.need[Z.from[v]] + (IF Z.to[v] # Z.from[v] THEN Z.need[Z.to[v]] ELSE 0)
Load(Z, v, p) == EndNeed(Z, v) + Total([k \in DOMAIN p |-> Z.need[p[k]]])
RouteLegs(Z, v, p) == Legs(Z.d, Z.from[v], p, Z.to[v])
RouteLength(Z, R) == Total([v \in DOMAIN R |-> Total(RouteLegs(Z, v, R[v]))])
OverLoad(Z, R) == Total([v \in DOMAIN R |-> Max2(0, Load(Z, v, R[v]) - Z.room[v])])
Visits(R) == FlattenSeq(R)
Once(Z, R) == Len(Visits(R)) = Cardinality(Customers(Z)) /\ SeqSet(Visits(R)) = Customers(Z)
Serves(Z, R) == OverLoad(Z, R) = 0 /\ Once(Z, R)
(* vehicles filled one after the other, largest needs first *)
BySize(Z, S) == SetToSortSeq(S, LAMBDA i, j : Z.need[i] > Z.need[j] \/ (Z.need[i] = Z.need[j] /\ i < j))
FillOne(Z, v, S) == FoldLeft(LAMBDA p, c : IF Load(Z, v, p) + Z.need[c] <= Z.room[v] THEN Append(p, c) ELSE p, <<>>, BySize(Z, S))
Filled(Z) == FoldLeft(LAMBDA R, v : Append(R, FillOne(Z, v, Customers(Z) \ SeqSet(Visits(R)))), <<>>, [v \in Vehicles(Z) |-> v])
AllInFirst(Z) == [v \in Vehicles(Z) |-> IF v = 1 THEN InOrder(Customers(Z)) ELSE <<>>]
(* k nodes nearest to i *)
Nearest(d, i, q) == \A k \in 1..Len(q) - 1 : d[i][q[k]] <= d[i][q[k + 1]]
=============================================================================
