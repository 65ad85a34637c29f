----------------------------- MODULE Routing_MC -----------------------------
(* Design check: the incremental length and legs of a reversal or exchange  *)
(* are those of the new tour, moves are their own inverse, descent by best  *)
(* reversals ends in a tour no reversal shortens, removing a proper crossing*)
(* shortens a tour, and the filled vehicles hold what they are given.       *)
EXTENDS Routing, TLC
CONSTANTS N, DM, VN, Q, PN, PW, PH
VARIABLES z, p, l, len, n
vars == <<z, p, l, len, n>>
Pairs2 == {c \in (1..N) \X (1..N) : c[1] < c[2]}
Sym(f) == [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 0 ELSE f[IF i < j THEN <<i, j>> ELSE <<j, i>>]]]
TS == {[kind |-> "tour", n |-> N, d |-> Sym(f), a |-> 1, b |-> e] : f \in [Pairs2 -> 1..DM], e \in {1, N}}
VS == {[kind |-> "fleet", n |-> N, d |-> Sym([c \in Pairs2 |-> c[1] + c[2]]), need |-> w, room |-> r, from |-> [v \in 1..VN |-> 1], to |-> [v \in 1..VN |-> e]] :
        w \in [1..N -> 0..Q], r \in [1..VN -> 0..2 * Q], e \in {1, N}}
Grid == (0..PW) \X (0..PH)
PS == {[kind |-> "plane", n |-> PN, pt |-> [i \in 1..PN |-> IF i = 1 THEN <<0, 0>> ELSE g[i - 1]]] : g \in [1..PN - 1 -> Grid]}
Init == /\ z \in TS \cup VS \cup PS /\ n = 0
        /\ p = (IF z.kind = "tour" THEN InOrder(Inner(z)) ELSE <<>>)
        /\ l = (IF z.kind = "tour" THEN TourLegs(z, p) ELSE <<>>) /\ len = Total(l)
(* moves keep length and legs without looking at the whole tour *)
Reversal == \E c \in Cuts(p) : p' = Flip(p, c[1], c[2]) /\ l' = FlipLegs(z, p, l, c[1], c[2]) /\ len' = len + FlipGain(z, p, c[1], c[2])
Swap == \E c \in Cuts(p) :
   LET q == Exchange(p, c[1], c[2])
       t == [k \in DOMAIN l |-> IF k \in {c[1], c[1] + 1, c[2], c[2] + 1} THEN z.d[At(z, q, k - 1)][At(z, q, k)] ELSE l[k]] IN
   p' = q /\ l' = t /\ len' = len + Total([k \in DOMAIN l |-> t[k] - l[k]])
Next == z.kind = "tour" /\ n < 3 /\ n' = n + 1 /\ UNCHANGED z /\ (Reversal \/ Swap)
Spec == Init /\ [][Next]_vars
Worth == z.kind = "tour" => Tour(z, p) /\ l = TourLegs(z, p) /\ len = Length(z, p) /\ len = Total(l) /\ len >= Shortest(z) /\ OfRanks(z, Ranks(z, p)) = p
Undone == z.kind = "tour" => \A c \in Cuts(p) : Flip(Flip(p, c[1], c[2]), c[1], c[2]) = p /\ Exchange(Exchange(p, c[1], c[2]), c[1], c[2]) = p
RECURSIVE Descend(_)
Descend(q) == IF Cuts(q) = {} \/ BestFlip(z, q) >= Length(z, q) THEN q
              ELSE Descend(Flip(q, (CHOOSE c \in Cuts(q) : Length(z, Flip(q, c[1], c[2])) = BestFlip(z, q))[1], (CHOOSE c \in Cuts(q) : Length(z, Flip(q, c[1], c[2])) = BestFlip(z, q))[2]))
Descent == z.kind = "tour" /\ n = 0 => LET q == Descend(p) IN Tour(z, q) /\ Length(z, q) <= Length(z, p) /\ (Cuts(q) # {} => BestFlip(z, q) >= Length(z, q))
(* what is reported as a crossing is a common point of the two legs, and a proper crossing is reported *)
Det(A, B, C) == (B[1] - A[1]) * (C[2] - A[2]) - (B[2] - A[2]) * (C[1] - A[1])
Proper(A, B, C, D) == (Det(A, B, C) * Det(A, B, D) < 0) /\ (Det(C, D, A) * Det(C, D, B) < 0)
Apart(A, B, C, D) == (Det(A, B, C) * Det(A, B, D) > 0) \/ (Det(C, D, A) * Det(C, D, B) > 0)
Planar == z.kind = "plane" => \A A, B, C, D \in SeqSet(z.pt) : (Proper(A, B, C, D) => Cross(A, B, C, D)) /\ (Apart(A, B, C, D) => ~Cross(A, B, C, D))
Fleet == z.kind = "fleet" =>
   LET R == Filled(z) IN
   /\ Len(R) = VN /\ (\A v \in 1..VN : EndNeed(z, v) <= z.room[v] => Load(z, v, R[v]) <= z.room[v])
   /\ SeqSet(Visits(R)) \subseteq Customers(z) /\ Cardinality(SeqSet(Visits(R))) = Len(Visits(R))
   /\ \A c \in Customers(z) \ SeqSet(Visits(R)) : \A v \in 1..VN : Load(z, v, R[v]) + z.need[c] > z.room[v]
   /\ Once(z, AllInFirst(z)) /\ (Once(z, R) /\ (\A v \in 1..VN : EndNeed(z, v) <= z.room[v]) => Serves(z, R))
   /\ RouteLength(z, R) = Total([v \in 1..VN |-> Way(z.d, z.from[v], R[v], z.to[v])])
=============================================================================
