------------------------------ MODULE GymWrap ------------------------------
(* Gym environments used as domains and domains used as Gym environments.   *)
(* E = [step[p][a] = [to, r, done], obs[p], starts: sequence]: a table       *)
(* environment with positions p; the k-th reset goes to starts[(k-1) mod n]. *)
EXTENDS Integers, Sequences, FiniteSets
To(E, p, a) == E.step[p][a].to
Start(E, k) == E.starts[((k - 1) % Len(E.starts)) + 1]
(* a remembered state: [p position of the environment, d depth, done] *)
Root(p) == [p |-> p, d |-> 0, done |-> FALSE]
Child(E, h, a) == [p |-> To(E, h.p, a), d |-> h.d + 1, done |-> E.step[h.p][a].done]
GoalOf(h, maxd, byend) == h.d >= maxd \/ (byend /\ h.done)
(* --- actions of a discretised space.  S = [t type, n: sequence of sizes, lo, hi: sequences (box), kids: sequence of spaces] *)
(* an action is flattened into a sequence of numbers *)
Join(P, Q) == {p \o q : p \in P, q \in Q}
RECURSIVE Product(_)
Product(F) == IF F = <<>> THEN {<<>>} ELSE Join(Head(F), Product(Tail(F)))
RECURSIVE Elements(_, _)
Elements(S, f) == CASE S.t \in {"discrete", "multidiscrete"} -> Product([i \in DOMAIN S.n |-> {<<x>> : x \in 0..(S.n[i] - 1)}])
  [] S.t = "multibinary" -> Product([i \in 1..S.n[1] |-> {<<0>>, <<1>>}])
  [] S.t = "box" -> Product([i \in DOMAIN S.lo |-> {<<S.lo[i] + ((S.hi[i] - S.lo[i]) * k) \div (f - 1)>> : k \in 0..(f - 1)}])
  [] OTHER -> Product([i \in DOMAIN S.kids |-> Elements(S.kids[i], f)])
(* --- interval features of a continuous variable (BEE2).  N = sequence of [lo, hi, kid], in order of creation; a new extreme opens an interval *)
RECURSIVE Bee2(_, _, _)
Pad(n) == [i \in 1..n |-> -1]
Inside(N, x) == {k \in DOMAIN N : N[k].lo <= x /\ x <= N[k].hi}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
Lowest(N) == LET S == {N[k].lo : k \in DOMAIN N} IN CHOOSE x \in S : \A y \in S : x <= y
Highest(N) == LET S == {N[k].hi : k \in DOMAIN N} IN CHOOSE x \in S : \A y \in S : x >= y
Cell(a, b) == [lo |-> a, hi |-> b, kid |-> <<>>]
(* result: [n: the grown tree, f: the features] *)
Bee2(N, x, level) ==
  IF N = <<>> THEN [n |-> <<Cell(x, x)>>, f |-> <<0>> \o Pad(level)]
  ELSE IF x < Lowest(N) THEN [n |-> Append(N, Cell(x, Lowest(N))), f |-> <<Len(N)>> \o Pad(level)]
  ELSE IF x > Highest(N) THEN [n |-> Append(N, Cell(Highest(N), x)), f |-> <<Len(N)>> \o Pad(level)]
  ELSE LET k == First(Inside(N, x)) IN
       IF level = 0 THEN [n |-> N, f |-> <<k - 1>>]
       ELSE LET r == Bee2(N[k].kid, x, level - 1) IN [n |-> [N EXCEPT ![k].kid = r.n], f |-> <<k - 1>> \o r.f]
(* --- distance features (BEE1).  T = [ref, inc: increasing distances, kids]; one tree above and one below the first value; *)
(* the feature is the number of recorded distances that are smaller, signed; a distance beyond all of them is recorded *)
Tree(x) == [ref |-> x, inc |-> <<0>>, kids |-> <<>>]
RECURSIVE Bee1(_, _, _, _)
Bee1(T, sgn, x, level) == \* level: features still to compute
  IF level = 0 THEN [t |-> T, f |-> <<>>]
  ELSE LET d == sgn * (x - T.ref)
           i == Cardinality({j \in DOMAIN T.inc : T.inc[j] < d}) IN
       IF i >= Len(T.inc) THEN [t |-> [T EXCEPT !.inc = Append(@, d), !.kids = Append(@, Tree(T.ref + sgn * T.inc[i]))], f |-> <<sgn * i>> \o [j \in 1..(level - 1) |-> 0]]
       ELSE IF i = 0 THEN LET r == Bee1(T, sgn, x, level - 1) IN [t |-> r.t, f |-> <<sgn * i>> \o r.f]
       ELSE LET r == Bee1(T.kids[i], sgn, x, level - 1) IN [t |-> [T EXCEPT !.kids[i] = r.t], f |-> <<sgn * i>> \o r.f]
(* --- bits of a number below n *)
RECURSIVE Width(_)
Width(n) == IF n <= 1 THEN 1 ELSE 1 + Width(n \div 2)
RECURSIVE Bits(_, _)
Bits(x, w) == IF w = 0 THEN <<>> ELSE Bits(x \div 2, w - 1) \o <<x % 2>>
RECURSIVE BitsOf(_, _)
BitsOf(S, v) == \* discrete spaces only; v flattened
  IF S.t = "multibinary" THEN v
  ELSE LET RECURSIVE G(_)
           G(i) == IF i > Len(v) THEN <<>> ELSE Bits(v[i], Width(S.n[i] - 1)) \o G(i + 1) IN G(1)
=============================================================================
