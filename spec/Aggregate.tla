----------------------------- MODULE Aggregate -----------------------------
(* How results are combined.  A result is a function from objective names to numbers.                                     *)
(* Fitness: one objective, a weighted sum, or a vector.  Scenarios: one number per scenario, combined into a fraction      *)
(* [n, d].  Policies: the expected cost of following a policy in a finite Markov decision process.                          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions
Rng(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q) + Total(Tail(q))
Weighted(res, objs, ws) == [i \in DOMAIN objs |-> ws[i] * res[objs[i]]]
Fitness(how, res, objs, ws) ==
  CASE how = "single" -> <<ws[1] * res[objs[1]]>>
    [] how = "sum" -> <<Total(Weighted(res, objs, ws))>>
    [] how = "vector" -> Weighted(res, objs, ws)
(* --- scenarios --- *)
Frac(n, d) == [n |-> n, d |-> d]
SameFrac(a, b) == a.n * b.d = b.n * a.d
Leq(a, b) == a.n * b.d <= b.n * a.d
Sorted(q) == SortSeq(q, LAMBDA a, b : a < b)
Quantile(q, p) == \* linear between the two nearest ranks
  LET z == Sorted(q)  h == (Len(q) - 1) * p  i == (h \div 100) + 1  r == h % 100 IN
  Frac(z[i] * (100 - r) + (IF r = 0 THEN 0 ELSE z[i + 1] * r), 100)
Combine(how, par, ws, q) ==
  CASE how = "mean" -> Frac(Total(q), Len(q))
    [] how = "median" -> LET z == Sorted(q)  n == Len(q) IN IF n % 2 = 1 THEN Frac(z[(n + 1) \div 2], 1) ELSE Frac(z[n \div 2] + z[n \div 2 + 1], 2)
    [] how = "percentile" -> Quantile(q, par)
    [] how = "ponderation" -> Frac(Total([i \in DOMAIN q |-> q[i] * ws[i]]), 1)
    [] how = "min" -> Frac(Min(Rng(q)), 1)
    [] how = "max" -> Frac(Max(Rng(q)), 1)
(* --- policies.  M = [g: granularity, goal: set, stop: set of states without continuation (the goals among them), next[s] = sequence of [to, w], cost[s] = sequence]: *)
(* the policy's transitions; weights are multiples of 1/M.g; w = 0 is possible *)
Nexts(M, s) == {i \in DOMAIN M.next[s] : M.next[s][i].w > 0}
RECURSIVE ReachFrom(_, _)
ReachFrom(M, S) == LET T == S \cup UNION {{M.next[s][i].to : i \in Nexts(M, s)} : s \in S \ M.stop} IN IF T = S THEN S ELSE ReachFrom(M, T)
(* the states from which the policy certainly reaches a goal in a bounded number of steps *)
RECURSIVE SureFrom(_, _, _)
SureFrom(M, R, S) == LET T == S \cup {s \in R \ M.stop : \A i \in Nexts(M, s) : M.next[s][i].to \in S} IN IF T = S THEN S ELSE SureFrom(M, R, T)
Sure(M, s0) == LET R == ReachFrom(M, {s0}) IN SureFrom(M, R, R \cap M.goal)
RECURSIVE Power(_, _)
Power(g, n) == IF n = 0 THEN 1 ELSE g * Power(g, n - 1)
(* expected cost times g^h, for h at least the length of the longest execution *)
RECURSIVE Expected(_, _, _)
Expected(M, s, h) == IF s \in M.goal THEN 0
  ELSE Total([i \in DOMAIN M.next[s] |-> IF M.next[s][i].w = 0 THEN 0
         ELSE M.next[s][i].w * (M.cost[s][i] * Power(M.g, h) + Expected(M, M.next[s][i].to, h))]) \div M.g
(* executions of a policy: x = sequence of [s state, c cost], final state not listed.  Estimates are averages over all visits *)
ToGo(x, j) == Total([i \in 1..(Len(x) - j + 1) |-> x[j + i - 1].c])
Visits(X, s) == {<<i, j>> \in (DOMAIN X) \X (1..Max({0} \cup {Len(X[i]) : i \in DOMAIN X})) : j <= Len(X[i]) /\ X[i][j].s = s}
Estimate(X, s) == LET V == SetToSeq(Visits(X, s)) IN Frac(Total([i \in DOMAIN V |-> ToGo(X[V[i][1]], V[i][2])]), Len(V))
Visited(X) == UNION {{X[i][j].s : j \in DOMAIN X[i]} : i \in DOMAIN X}
=============================================================================
