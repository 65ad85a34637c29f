----------------------------- MODULE Exact_MC -----------------------------
(* Design check of the neighbourhood search: whatever part of the plan is    *)
(* kept at each move, the plan stays feasible, its worth never falls, and    *)
(* never exceeds the optimum; a move that keeps nothing reaches the optimum, *)
(* one that keeps everything stays; keeping less never gives a worse plan.   *)
EXTENDS Exact, TLC
CONSTANTS N, V, W, C, GN, FN, CN
VARIABLES kd, p, x, n, w0, kk
vars == <<kd, p, x, n, w0, kk>>
KS == {[v |-> v, w |-> w, cap |-> c] : v \in [1..N -> 0..V], w \in [1..N -> 0..W], c \in 0..C}
PairSet == {q \in (1..GN) \X (1..GN) : q[1] < q[2]}
GS == {[n |-> GN, e |-> SetToSeq(t), dir |-> FALSE] : t \in SUBSET PairSet}
FS == {[d |-> [f \in 1..FN |-> [c \in 1..CN |-> (2 * f + c * f) % 4]], setup |-> st, room |-> r, need |-> nd] : st \in [1..FN -> {0, 2}], r \in [1..FN -> {0, 2, 3}], nd \in [1..CN -> 0..2]}
Start(k, P) == CASE k = "k" -> {Nothing(P)} [] k = "c" -> {[i \in 1..P.n |-> i - 1]}
                 [] k = "f" -> {y \in [DOMAIN P.need -> DOMAIN P.room] : Holds(P, y)}
Init == /\ kd \in {"k", "c", "f"}
        /\ p \in (CASE kd = "k" -> KS [] kd = "c" -> GS [] kd = "f" -> FS)
        /\ x \in Start(kd, p) /\ n = 0 /\ w0 = Goal(kd, p, x) /\ kk = -1
Move == \E S \in SUBSET Places(kd, p) : LET Q == Near2(kd, p, x, S) b == Max({Goal(kd, p, z) : z \in Q}) IN
           \E y \in {z \in Q : Goal(kd, p, z) = b} : x' = y /\ kk' = Cardinality(S)
Rename == kd = "c" /\ x' = Renamed2(x) /\ kk' = -1
Next == n < 2 /\ n' = n + 1 /\ w0' = Goal(kd, p, x) /\ UNCHANGED <<kd, p>> /\ (Move \/ Rename)
Spec == Init /\ [][Next]_vars
Sound == Valid(kd, p, x) /\ Feasible(kd, p, x) /\ Worth(kd, p, x) <= Optimum(kd, p)
(* a colouring without gaps never gets worse; one with gaps may, until it is renumbered *)
NeverWorse == Goal(kd, p, x) >= w0
Reaches == kk = 0 => Goal(kd, p, x) = Optimum(kd, p)
Stays == [][kk' = Cardinality(Places(kd, p)) /\ kd # "c" => x' = x]_vars
Allowed == [][kk' >= 0 => Moves(kd, p, x, kk', x')]_vars
Wider == n = 0 => \A S \in SUBSET Places(kd, p) : \A i \in S : BestOf(kd, p, Near2(kd, p, x, S)) <= BestOf(kd, p, Near2(kd, p, x, S \ {i}))
=============================================================================
