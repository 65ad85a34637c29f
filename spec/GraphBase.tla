----------------------------- MODULE GraphBase -----------------------------
(* Finite weighted transition graphs: the state space of a deterministic    *)
(* goal domain.  g.n nodes 1..n, g.edges a sequence of [u,a,v,c] (from,     *)
(* action, to, cost), g.goal a sequence of booleans, one per node.          *)
EXTENDS Integers, Sequences, FiniteSets
INF == 1000000
Nodes(g) == 1..g.n
Out(g, u) == {i \in DOMAIN g.edges : g.edges[i].u = u}
Acts(g, u) == {g.edges[i].a : i \in Out(g, u)}
EdgeOf(g, u, a) == g.edges[CHOOSE i \in Out(g, u) : g.edges[i].a = a]
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
(* one Bellman-Ford sweep of the cost-to-go *)
Relax(g, d) ==
  [u \in Nodes(g) |->
     MinSet({d[u]} \cup {Plus(g.edges[i].c, d[g.edges[i].v]) : i \in Out(g, u)})]
RECURSIVE Sweeps(_, _, _)
Sweeps(g, d, k) == IF k = 0 THEN d
                   ELSE LET e == Relax(g, d) IN IF e = d THEN d ELSE Sweeps(g, e, k - 1)
(* optimal cost-to-go of every node *)
CostToGo(g) == Sweeps(g, [u \in Nodes(g) |-> IF g.goal[u] THEN 0 ELSE INF], g.n + 1)
RECURSIVE ReachFrom(_, _)
ReachFrom(g, S) ==
  LET T == S \cup {g.edges[i].v : i \in {j \in DOMAIN g.edges : g.edges[j].u \in S}}
  IN IF T = S THEN S ELSE ReachFrom(g, T)
Reach(g, s) == ReachFrom(g, {s})
RECURSIVE AcyclicFrom(_, _)
(* remove sinks until nothing is left *)
AcyclicFrom(g, S) ==
  LET sinks == {u \in S : \A i \in Out(g, u) : g.edges[i].v \notin S}
  IN IF S = {} THEN TRUE ELSE IF sinks = {} THEN FALSE ELSE AcyclicFrom(g, S \ sinks)
Acyclic(g) == AcyclicFrom(g, Nodes(g))
Consistent(g, h) == /\ \A u \in Nodes(g) : h[u] >= 0 /\ (g.goal[u] => h[u] = 0)
                    /\ \A i \in DOMAIN g.edges : h[g.edges[i].u] <= g.edges[i].c + h[g.edges[i].v]
Admissible(g, h) == LET d == CostToGo(g) IN \A u \in Nodes(g) : h[u] >= 0 /\ h[u] <= d[u]
=============================================================================
