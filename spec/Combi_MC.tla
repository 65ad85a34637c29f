----------------------------- MODULE Combi_MC -----------------------------
(* Design check: the dynamic programme is optimal for every queue that keeps *)
(* all items that fit, the greedy rules are feasible and full, any greedy    *)
(* colouring is proper within degree + 1, renaming keeps the partition, and  *)
(* sequential filling holds whenever it ends.                                *)
EXTENDS Combi, TLC
CONSTANTS N, V, W, C, GN, FN, CN
VARIABLES k, x, done
vars == <<k, x, done>>
KS == {[kind |-> "knap", v |-> v, w |-> w, cap |-> c] : v \in [1..N -> 0..V], w \in [1..N -> 1..W], c \in 0..C}
PairSet == {p \in (1..GN) \X (1..GN) : p[1] < p[2]}
GS == {[kind |-> "graph", n |-> GN, e |-> SetToSeq(s), dir |-> FALSE] : s \in SUBSET PairSet}
FS == {[kind |-> "fac", d |-> [f \in 1..FN |-> [c \in 1..CN |-> f + c]], setup |-> [f \in 1..FN |-> f], room |-> r, need |-> n] : r \in [1..FN -> 0..3], n \in [1..CN -> 0..3]}
Kind == k.kind
Init == /\ k \in KS \cup GS \cup FS /\ done = <<>>
        /\ x = (IF Kind = "knap" THEN Nothing(k) ELSE IF Kind = "graph" THEN [i \in 1..GN |-> -1] ELSE <<>>)
(* one step: consider an item / colour a node / serve a customer, in any order where the order is free *)
Todo == IF Kind = "knap" THEN Items(k) ELSE IF Kind = "graph" THEN 1..GN ELSE Cust(k)
Step == \E i \in Todo \ {done[j] : j \in DOMAIN done} :
   /\ UNCHANGED k /\ done' = Append(done, i)
   /\ x' = CASE Kind = "knap" -> IF Wgt(k, x) + k.w[i] <= k.cap THEN [x EXCEPT ![i] = 1] ELSE x
             [] Kind = "graph" -> [x EXCEPT ![i] = Min((0..GN) \ {x[j] : j \in Near(k, i)})]
             [] OTHER -> x
Next == Kind # "fac" /\ Step
Spec == Init /\ [][Next]_vars
All == Cardinality(Todo) = Len(done)
Feasible == Kind = "knap" => Fits(k, x) /\ Over(k, x) = 0 /\ (All => Full(k, x) /\ Fill(k, done) = x) /\ Val(k, x) <= Best(k)
Subsets == [1..N -> {0, 1}]
Exact == Kind = "knap" /\ done = <<>> =>
   LET top == Max({Val(k, y) : y \in {z \in Subsets : Fits(k, z)}})
       q == Queue(k, Denser)
       d1 == Dynamic(k, [i \in 1..N |-> i]) d2 == Dynamic(k, q) IN
   /\ Best(k) = top
   /\ Fits(k, d1) /\ Val(k, d1) = top
   /\ Fits(k, d2) /\ Val(k, d2) = top
   /\ Full(k, GreedyDense(k)) /\ Full(k, GreedyLight(k)) /\ Fits(k, GreedyDense(k)) /\ Fits(k, GreedyLight(k))
   /\ Val(k, GreedyDense(k)) <= top
   /\ 2 * Max2(Val(k, GreedyDense(k)), Max({0} \cup {k.v[i] : i \in {Light(k)[j] : j \in DOMAIN Light(k)}})) >= top
Coloured == Kind = "graph" =>
   /\ \A a, b \in {done[j] : j \in DOMAIN done} : b \in Near(k, a) => x[a] # x[b]
   /\ \A i \in 1..GN : x[i] <= Degree(k)
   /\ All => Proper(k, x) /\ Clash(k, x) = 0 /\ Colors(x) <= Degree(k) + 1 /\ Colors(x) >= Chromatic(k) /\ Along(k, done) = x
   /\ LET r == Renamed(x) IN SamePartition(r, x) /\ Renamed(r) = r /\ Colors(r) = Colors(x) /\ {r[i] : i \in DOMAIN r} = 0..Colors(r) - 1
Cliqued == Kind = "graph" /\ done = <<>> =>
   /\ \A q \in MaxCliques(k) : Cardinality(q) <= Chromatic(k)
   /\ UNION MaxCliques(k) = 1..GN
Served == Kind = "fac" => LET a == Sequential(k) IN
   /\ a # <<>> => Holds(k, a) /\ \A i, j \in Cust(k) : i < j => a[i] <= a[j]
   /\ a # <<>> => Setup(k, a) = SumOver(Used(k, a), LAMBDA f : f) /\ Cost(k, a) = SumOver(Used(k, a), LAMBDA f : CostOf(k, a, f))
   /\ a # <<>> => Total(k.need) = SumOver(Used(k, a), LAMBDA f : Load(k, a, f))
=============================================================================
