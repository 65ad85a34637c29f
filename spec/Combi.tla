------------------------------- MODULE Combi -------------------------------
(* Knapsack, graph colouring and facility location: the problems, what a    *)
(* plan is worth, and what the bundled heuristics and the dynamic programme *)
(* are meant to compute.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Total(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Max2(a, b) == IF a > b THEN a ELSE b
(*--- knapsack: K.v, K.w values and weights by position, K.cap ------------*)
Items(K) == DOMAIN K.v
Val(K, x) == Total([i \in Items(K) |-> x[i] * K.v[i]])
Wgt(K, x) == Total([i \in Items(K) |-> x[i] * K.w[i]])
Over(K, x) == Max2(0, Wgt(K, x) - K.cap)
Fits(K, x) == Wgt(K, x) <= K.cap
Heaviest(K, x) == Max({0} \cup {K.w[i] : i \in {j \in Items(K) : x[j] = 1}})
Nothing(K) == [i \in Items(K) |-> 0]
Light(K) == SelectSeq([i \in Items(K) |-> i], LAMBDA i : K.w[i] <= K.cap)
Denser(K, i, j) == K.v[i] * K.w[j] > K.v[j] * K.w[i]
(* v/w - w, compared exactly *)
Better(K, i, j) == K.v[i] * K.w[j] - K.w[i] * K.w[i] * K.w[j] > K.v[j] * K.w[i] - K.w[j] * K.w[j] * K.w[i]
(* the items in the given order, ties in the order of the problem *)
Queue(K, Before(_, _, _)) == SetToSortSeq({i \in Items(K) : K.w[i] <= K.cap}, LAMBDA i, j : Before(K, i, j) \/ (~Before(K, j, i) /\ i < j))
Fill(K, q) == FoldLeft(LAMBDA x, i : IF Wgt(K, x) + K.w[i] <= K.cap THEN [x EXCEPT ![i] = 1] ELSE x, Nothing(K), q)
GreedyDense(K) == Fill(K, Queue(K, Denser))
GreedyLight(K) == Fill(K, Queue(K, Better))
TiesLight(K) == \E i, j \in Items(K) : i # j /\ K.w[i] # K.w[j] /\ ~Better(K, i, j) /\ ~Better(K, j, i)
Full(K, x) == \A i \in Items(K) : x[i] = 0 => Wgt(K, x) + K.w[i] > K.cap
(* the table of the dynamic programme over the first n items of the queue q: best[c + 1] for every capacity c *)
Row(K, row, i) == [c \in DOMAIN row |-> IF K.w[i] > c - 1 THEN row[c] ELSE Max2(row[c], row[c - K.w[i]] + K.v[i])]
Rows(K, q) == FoldLeft(LAMBDA t, i : Append(t, Row(K, t[Len(t)], i)), <<[c \in 1..K.cap + 1 |-> 0]>>, q)
Best(K) == LET t == Rows(K, [i \in Items(K) |-> i]) IN t[Len(t)][K.cap + 1]
RECURSIVE Trail(_, _, _, _, _)
Trail(K, t, q, n, c) == IF n = 0 THEN Nothing(K)
                        ELSE IF t[n + 1][c + 1] = t[n][c + 1] THEN Trail(K, t, q, n - 1, c)
                        ELSE [Trail(K, t, q, n - 1, c - K.w[q[n]]) EXCEPT ![q[n]] = 1]
Dynamic(K, q) == Trail(K, Rows(K, q), q, Len(q), K.cap)
(*--- colouring: G.n nodes 1..n, G.e listed edges -------------------------*)
Clash(G, c) == Cardinality({k \in DOMAIN G.e : c[G.e[k][1]] = c[G.e[k][2]]})
Colors(c) == Cardinality({c[i] : i \in DOMAIN c})
Near(G, i) == {j \in 1..G.n : \E k \in DOMAIN G.e : G.e[k] \in {<<i, j>>, <<j, i>>}}
Degree(G) == Max({0} \cup {Cardinality(Near(G, i)) : i \in 1..G.n})
Proper(G, c) == \A k \in DOMAIN G.e : c[G.e[k][1]] # c[G.e[k][2]]
(* colours renamed by first appearance *)
Renamed(c) == LET first(i) == Min({j \in DOMAIN c : c[j] = c[i]}) IN
              [i \in DOMAIN c |-> Cardinality({first(j) : j \in DOMAIN c} \cap 1..first(i)) - 1]
SamePartition(c, d) == \A i, j \in DOMAIN c : (c[i] = c[j]) <=> (d[i] = d[j])
(* the smallest colour free around each node, along an order *)
Along(G, o) == FoldLeft(LAMBDA c, i : [c EXCEPT ![i] = Min((0..G.n) \ {c[j] : j \in Near(G, i)})], [i \in 1..G.n |-> -1], o)
Chromatic(G) == LET Ok(k) == \E c \in [1..G.n -> 0..k - 1] : Proper(G, c) IN IF G.n = 0 THEN 0 ELSE Min({k \in 1..G.n : Ok(k)})
Clique(G, q) == \A a, b \in q : a # b => b \in Near(G, a)
MaxClique(G, q) == q # {} /\ Clique(G, q) /\ \A x \in (1..G.n) \ q : ~Clique(G, q \cup {x})
MaxCliques(G) == {q \in SUBSET (1..G.n) : MaxClique(G, q)}
(*--- facility: P.d[f][c] costs, P.setup[f], P.room[f], P.need[c] ----------*)
Cust(P) == DOMAIN P.need
Used(P, a) == {a[c] : c \in Cust(P)}
OfF(P, a, f) == {c \in Cust(P) : a[c] = f}
SumOver(S, F(_)) == FoldSet(LAMBDA k, acc : acc + F(k), 0, S)
Load(P, a, f) == SumOver(OfF(P, a, f), LAMBDA c : P.need[c])
CostOf(P, a, f) == SumOver(OfF(P, a, f), LAMBDA c : P.d[f][c])
Cost(P, a) == SumOver(Cust(P), LAMBDA c : P.d[a[c]][c])
Setup(P, a) == SumOver(Used(P, a), LAMBDA f : P.setup[f])
Excess(P, a) == SumOver(Used(P, a), LAMBDA f : Max2(0, Load(P, a, f) - P.room[f]))
Holds(P, a) == Excess(P, a) = 0
(* customers in order; a facility that is too full is left for good *)
RECURSIVE InOrder(_, _, _, _)
InOrder(P, a, f, left) == IF Len(a) = Len(P.need) THEN a
   ELSE IF f > Len(P.room) THEN <<>>
   ELSE IF left >= P.need[Len(a) + 1] THEN InOrder(P, Append(a, f), f, left - P.need[Len(a) + 1])
   ELSE InOrder(P, a, f + 1, IF f < Len(P.room) THEN P.room[f + 1] ELSE 0)
Sequential(P) == InOrder(P, <<>>, 1, P.room[1])
(*--- graphs as the modellers build them: G.dir directed?, G.lab labels of listed edges ---*)
Succ(G, i) == {j \in 1..G.n : \E k \in DOMAIN G.e : G.e[k] = <<i, j>> \/ (~G.dir /\ G.e[k] = <<j, i>>)}
Pred(G, i) == {j \in 1..G.n : i \in Succ(G, j)}
Lab(G, i, j) == LET m == {k \in DOMAIN G.e : G.e[k] = <<i, j>> \/ (~G.dir /\ G.e[k] = <<j, i>>)} IN IF m = {} THEN -777777 ELSE G.lab[Max(m)]
RECURSIVE Reach(_, _)
Reach(G, S) == LET T == S \cup UNION {Pred(G, j) : j \in S} IN IF T = S THEN S ELSE Reach(G, T)
Before(G, i) == Reach(G, {i}) \ {i}
Cyclic(G) == \E i \in 1..G.n : \E j \in Pred(G, i) : i \in Reach(G, {j})
=============================================================================
