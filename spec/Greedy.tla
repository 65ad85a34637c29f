------------------------------- MODULE Greedy -------------------------------
(* One-step lookahead policies on finite stochastic domains.                 *)
(* m.n states; m.acts[u] sequence of actions [a, outs] with outs a sequence  *)
(* of [v, w, r]: next state, integer weight (total m.den), reward.           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumOuts(_)
SumOuts(o) == IF o = <<>> THEN 0 ELSE Head(o).w * Head(o).r + SumOuts(Tail(o))
ActsM(m, u) == {m.acts[u][i].a : i \in DOMAIN m.acts[u]}
ActM(m, u, a) == m.acts[u][CHOOSE i \in DOMAIN m.acts[u] : m.acts[u][i].a = a]
Expected(m, u, a) == SumOuts(ActM(m, u, a).outs)
Best(m, u) == {a \in ActsM(m, u) : \A b \in ActsM(m, u) : Expected(m, u, b) <= Expected(m, u, a)}
\* answers: e.act[u] for every state with at least one action
GreedyFails(m, e) ==
  (IF \E u \in 1..m.n : m.acts[u] # <<>> /\ e.act[u] \notin ActsM(m, u) THEN {"greedy.applicable"} ELSE {})
   \cup (IF \E u \in 1..m.n : m.acts[u] # <<>> /\ e.act[u] \in ActsM(m, u) /\ e.act[u] \notin Best(m, u) THEN {"greedy.best"} ELSE {})
   \cup (IF \E u \in 1..m.n : m.acts[u] # <<>> /\ ~e.def[u] THEN {"greedy.defined"} ELSE {})
=============================================================================
