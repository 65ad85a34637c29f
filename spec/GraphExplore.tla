---------------------------- MODULE GraphExplore ----------------------------
(* Exploration of a finite (stochastic) domain from its initial state.       *)
(* m.n states, m.init, m.goal[u], m.term[u], m.acts[u]: sequence of          *)
(* [a, outs], outs a sequence of [v, w, c] (next state, weight, cost);       *)
(* outs of weight 0 are not transitions.  m.stopterm: terminal states are    *)
(* not expanded either (stochastic explorer).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* set of rows <<action, next, weight, cost>> of a state
Rows(m, u) == UNION {{<<m.acts[u][i].a, m.acts[u][i].outs[j].v, m.acts[u][i].outs[j].w, m.acts[u][i].outs[j].c>> :
                        j \in {k \in DOMAIN m.acts[u][i].outs : m.acts[u][i].outs[k].w > 0}} : i \in DOMAIN m.acts[u]}
Succ(m, u) == {r[2] : r \in Rows(m, u)}
Stops(m, u) == m.goal[u] \/ (m.stopterm /\ m.term[u])
(* ---- the explorer: discovered states, states still to expand, rows known ---- *)
X0(m) == [disc |-> {m.init}, todo |-> IF m.stopterm /\ Stops(m, m.init) THEN {} ELSE {m.init}, rows |-> [u \in {} |-> {}]]
Expand(m, x, u) ==
  [disc |-> x.disc \cup Succ(m, u),
   todo |-> (x.todo \ {u}) \cup {v \in Succ(m, u) \ x.disc : ~Stops(m, v)},
   rows |-> (u :> Rows(m, u)) @@ x.rows]
RECURSIVE Closure(_, _)
Closure(m, x) == IF x.todo = {} THEN x ELSE Closure(m, Expand(m, x, CHOOSE u \in x.todo : TRUE))
\* the complete graph
Full(m) == Closure(m, X0(m))
RECURSIVE ReachM(_, _)
ReachM(m, S) == LET T == S \cup UNION {Succ(m, u) : u \in S} IN IF T = S THEN S ELSE ReachM(m, T)
Sound(m, x) == /\ x.disc \subseteq ReachM(m, {m.init})
               /\ \A u \in DOMAIN x.rows : u \in x.disc /\ x.rows[u] = Rows(m, u) /\ {r[2] : r \in x.rows[u]} \subseteq x.disc
               /\ x.todo \subseteq x.disc \ DOMAIN x.rows
(* ---- a graph handed back by the code ----
   e.nodes, e.rows (sequence of [u, rows: seq of [a,v,w,c]], only states with a row), e.goal/e.term per state,
   e.maxn, e.maxe, e.maxp *)
ERows(e, i) == {<<e.rows[i].rows[j].a, e.rows[i].rows[j].v, e.rows[i].rows[j].w, e.rows[i].rows[j].c>> : j \in DOMAIN e.rows[i].rows}
EdgeCount(m, x) == Cardinality(UNION {{<<u, r>> : r \in x.rows[u]} : u \in DOMAIN x.rows})
GoalEdges(m, x) == Cardinality(UNION {{<<u, r>> : r \in {q \in x.rows[u] : m.goal[q[2]]}} : u \in DOMAIN x.rows})
MaxOut(m) == CHOOSE k \in {Cardinality(Succ(m, u)) : u \in 1..m.n} : \A u \in 1..m.n : Cardinality(Succ(m, u)) <= k
GraphFails(m, e) ==
  LET full == Full(m)
      nodes == {e.nodes[i] : i \in DOMAIN e.nodes}
      known == {e.rows[i].u : i \in DOMAIN e.rows}
      rowsof(u) == ERows(e, CHOOSE i \in DOMAIN e.rows : e.rows[i].u = u)
      within == Cardinality(full.disc) <= e.maxn /\ EdgeCount(m, full) <= e.maxe /\ GoalEdges(m, full) <= e.maxp
  IN (IF m.init \notin nodes THEN {"graph.initial"} ELSE {})
   \cup (IF ~(nodes \subseteq ReachM(m, {m.init})) THEN {"graph.unreachable"} ELSE {})
   \cup (IF Cardinality(known) # Len(e.rows) \/ Cardinality(nodes) # Len(e.nodes) THEN {"graph.duplicate"} ELSE {})
   \cup (IF \E u \in known : u \notin DOMAIN full.rows THEN {"graph.expandedstop"} ELSE {})
   \cup (IF \E u \in known : ~(rowsof(u) \subseteq Rows(m, u)) THEN {"graph.invented"} ELSE {})
   \cup (IF \E u \in known : ~(Rows(m, u) \subseteq rowsof(u)) THEN {"graph.missing"} ELSE {})
   \cup (IF \E u \in known : ~({r[2] : r \in rowsof(u)} \subseteq nodes) THEN {"graph.dangling"} ELSE {})
   \cup (IF within /\ (nodes # full.disc \/ \E u \in DOMAIN full.rows : Rows(m, u) # {} /\ u \notin known)
         THEN {"graph.incomplete"} ELSE {})
   \cup (IF \E i \in DOMAIN e.nodes : e.goal[i] # m.goal[e.nodes[i]] THEN {"graph.goal"} ELSE {})
   \cup (IF e.uncertain /\ \E i \in DOMAIN e.nodes : e.term[i] # (m.term[e.nodes[i]] \/ e.nodes[i] \notin known) THEN {"graph.terminal"} ELSE {})
   \cup (IF e.uncertain /\ Cardinality(nodes) > e.maxn + MaxOut(m) THEN {"graph.bound"} ELSE {})
\* answers of the graph used as a domain, for one expanded state u: e.acts, e.inspace, e.rows
DomainFails(m, e) ==
  (IF {e.acts[i] : i \in DOMAIN e.acts} # {m.acts[e.u][i].a : i \in DOMAIN m.acts[e.u]} THEN {"domain.actions"} ELSE {})
   \cup (IF \E i \in DOMAIN e.acts : ~e.inspace[i] THEN {"domain.space"} ELSE {})
   \cup (IF e.outside THEN {"domain.space"} ELSE {})
   \cup (IF {<<e.rows[j].a, e.rows[j].v, e.rows[j].w, e.rows[j].c>> : j \in DOMAIN e.rows} # Rows(m, e.u) THEN {"domain.transitions"} ELSE {})
   \cup (IF e.sampled \notin {e.acts[i] : i \in DOMAIN e.acts} THEN {"domain.sample"} ELSE {})
=============================================================================
