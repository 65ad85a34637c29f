------------------------------ MODULE Mutation ------------------------------
(* Moves over an encoding made of a permutation p, bits b and bounded      *)
(* integers m (m[k] in 1..ar[k]).                                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
IsPerm(p) == {p[k] : k \in DOMAIN p} = 0..(Len(p) - 1)
IsBits(b) == \A k \in DOMAIN b : b[k] \in {0, 1}
IsInts(m, ar) == Len(m) = Len(ar) /\ \A k \in DOMAIN m : m[k] \in 1..ar[k]
Swap(p, i, j) == [p EXCEPT ![i] = p[j], ![j] = p[i]]
Reverse2(p, i, j) == [k \in DOMAIN p |-> IF k \in i..j THEN p[i + j - k] ELSE p[k]]
Changed(p, q) == {k \in DOMAIN p : p[k] # q[k]}
(* least number of swaps from p to q: positions minus cycles *)
Where(q, v) == CHOOSE k \in DOMAIN q : q[k] = v
RECURSIVE Orbit(_, _, _)
Orbit(p, q, K) == LET K2 == K \cup {Where(q, p[k]) : k \in K} IN IF K2 = K THEN K ELSE Orbit(p, q, K2)
Cycles(p, q) == {Orbit(p, q, {k}) : k \in DOMAIN p}
Distance(p, q) == Len(p) - Cardinality(Cycles(p, q))
SameElements(p, q) == Len(p) = Len(q) /\ \A v \in {p[k] : k \in DOMAIN p} \cup {q[k] : k \in DOMAIN q} :
   Cardinality({k \in DOMAIN p : p[k] = v}) = Cardinality({k \in DOMAIN q : q[k] = v})
(* p -> q is one reversal of a section of at least two positions *)
Is2Opt(p, q) == \E i, j \in DOMAIN p : i < j /\ q = Reverse2(p, i, j)
(* what each operator may do to the part it works on; k: its parameter *)
KindOK(kind, k, p, q) ==
  CASE kind = "shuffle" -> SameElements(p, q)
    [] kind = "partial" -> SameElements(p, q) /\ Cardinality(Changed(p, q)) <= k
    [] kind = "swap" -> SameElements(p, q) /\ Distance(p, q) <= k
    [] kind = "2opt" -> Is2Opt(p, q)
    [] kind = "flip" -> Len(p) = Len(q) /\ IsBits(q)
    [] kind = "flipall" -> Len(p) = Len(q) /\ IsBits(q) /\ Changed(p, q) = DOMAIN p
    [] kind = "flip1" -> Len(p) = Len(q) /\ IsBits(q) /\ Cardinality(Changed(p, q)) = 1
    [] kind = "flip01" -> Len(p) = Len(q) /\ IsBits(q) /\ Cardinality(Changed(p, q)) <= 1
    [] kind = "ints" -> Len(p) = Len(q)
    [] OTHER -> FALSE
=============================================================================
