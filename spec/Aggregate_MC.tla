---------------------------- MODULE Aggregate_MC ----------------------------
(* Laws of the combinations, and: the expected cost of a policy is the mean over its executions, enumerated one by one. *)
EXTENDS Aggregate, TLC
CONSTANTS NS, V
VARIABLES mode, q, M, run
vars == <<mode, q, M, run>>
Laws == {<<4>>, <<1, 3>>, <<2, 2>>, <<4, 0>>}
(* states 1..NS, NS+1 goal, NS+2 dead end; transitions go up, or stay (a loop) *)
Up(s) == (s + 1)..(NS + 2)
Moves(s) == {n \in UNION {[DOMAIN w -> {[to |-> t, w |-> y] : t \in Up(s) \cup {s}, y \in 0..4}] : w \in Laws} :
               \E w \in Laws : DOMAIN n = DOMAIN w /\ \A i \in DOMAIN w : n[i].w = w[i]}
RECURSIVE Plans(_)
Plans(n) == IF n = 0 THEN {<<>>} ELSE {Append(p, m) : p \in Plans(n - 1), m \in Moves(n)}
Mdps == {[g |-> 4, goal |-> {NS + 1}, stop |-> {NS + 1, NS + 2}, next |-> f, cost |-> [s \in 1..NS |-> [i \in DOMAIN f[s] |-> s + i]]] : f \in Plans(NS)}
None == [g |-> 4, goal |-> {}, stop |-> {}, next |-> <<>>, cost |-> <<>>]
Init == \/ mode = "numbers" /\ q \in UNION {[1..n -> 0..V] : n \in 1..4} /\ M = None /\ run = <<>>
        \/ mode = "policy" /\ q = <<>> /\ M \in Mdps /\ run = <<>>
(* one execution from state 1: sequence of [s, i]: the state and the branch taken *)
At == IF run = <<>> THEN 1 ELSE M.next[run[Len(run)].s][run[Len(run)].i].to
Step == mode = "policy" /\ At \notin M.stop /\ Len(run) < NS + 1 /\ \E i \in Nexts(M, At) : run' = Append(run, [s |-> At, i |-> i]) /\ UNCHANGED <<mode, q, M>>
Spec == Init /\ [][Step]_vars
How == {"mean", "median", "min", "max"}
Between == mode = "numbers" => \A h \in How : Leq(Combine("min", 0, <<>>, q), Combine(h, 0, <<>>, q)) /\ Leq(Combine(h, 0, <<>>, q), Combine("max", 0, <<>>, q))
Quantiles == mode = "numbers" => /\ SameFrac(Quantile(q, 50), Combine("median", 0, <<>>, q)) /\ SameFrac(Quantile(q, 0), Combine("min", 0, <<>>, q)) /\ SameFrac(Quantile(q, 100), Combine("max", 0, <<>>, q))
               /\ \A p \in {10, 25, 40, 90} : Leq(Quantile(q, p), Quantile(q, p + 10))
MeanIsEven == mode = "numbers" => SameFrac(Combine("mean", 0, <<>>, q), Frac(Combine("ponderation", 0, [i \in DOMAIN q |-> 1], q).n, Len(q)))
(* all executions of the policy from s, with their weight (times 4^h) and cost *)
RECURSIVE Paths(_, _)
Paths(s, h) == IF s \in M.stop THEN {[p |-> <<>>, w |-> Power(M.g, h), c |-> 0]}
  ELSE UNION {{[p |-> <<i>> \o x.p, w |-> M.next[s][i].w * x.w, c |-> M.cost[s][i] + x.c] : x \in Paths(M.next[s][i].to, h - 1)} : i \in Nexts(M, s)}
Sum(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
ValueIsMean == (mode = "policy" /\ run = <<>> /\ 1 \in Sure(M, 1)) =>
  LET X == Paths(1, NS) IN Sum(X, LAMBDA x : x.w) = Power(M.g, NS) /\ Expected(M, 1, NS) = Sum(X, LAMBDA x : x.w * x.c)
(* a sure state's executions never loop and end at a goal *)
SureEnds == (mode = "policy" /\ 1 \in Sure(M, 1)) => (Len(run) <= NS /\ (At \in M.stop => At \in M.goal))
=============================================================================
