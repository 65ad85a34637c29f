----------------------------- MODULE EnvDomain -----------------------------
(* A domain used as an environment and as a simulator.  The instance I gives *)
(* the author's part as tables; this module gives what the templates of      *)
(* reset/step/sample/set_memory and the queries make of them.                *)
(*  I.ag       number of agents (1: answers are not per agent)               *)
(*  I.mlen     memory length (None: unbounded), I.kind "none"/"state"/"history" *)
(*  I.trans    [memory key][joint action] -> sequence of <<state, weight>>   *)
(*  I.val      [memory key][joint action][state] -> reward of every agent    *)
(*  I.obs      [state][joint action + 1, 1 = no action] -> <<observations, weight>> *)
(*  I.term / I.goals / I.app / I.enabled / I.acts / I.obss : the declared sets *)
EXTENDS Integers, Sequences, FiniteSets
None == -1
Agents(I) == 1..I.ag
Range(q) == {q[i] : i \in DOMAIN q}
SumOf(f(_), n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + f(i) IN S[n]
(* ---------------- memory discipline ---------------- *)
LastOf(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Keep(I, q) == IF I.mlen = None THEN q ELSE LastOf(q, I.mlen)
Start(I, x) == Keep(I, <<x>>)
Remember(I, m, x) == Keep(I, Append(m, x))
(* ---------------- the author's functions ---------------- *)
Key(I, m) == LET f(i) == i * m[i] IN 1 + (SumOf(f, Len(m)) % I.keys)
Pow(b, n) == LET S[i \in 0..n] == IF i = 0 THEN 1 ELSE b * S[i - 1] IN S[n]
Joint(I, a) == LET f(i) == (a[i] - 1) * Pow(I.na, i - 1) IN 1 + SumOf(f, I.ag)
Support(q) == {q[i][1] : i \in {i \in DOMAIN q : q[i][2] > 0}}
NextDist(I, m, a) == I.trans[Key(I, m)][Joint(I, a)]
Nexts(I, m, a) == Support(NextDist(I, m, a))
ObsDist(I, x, a) == I.obs[x][IF a = <<>> THEN 1 ELSE Joint(I, a) + 1]
Observations(I, x, a) == Support(ObsDist(I, x, a))
Value(I, m, a, x) == I.val[Key(I, m)][Joint(I, a)][x]
Terminal(I, x) == I.term[x]
(* ---------------- transitions ---------------- *)
Inits(I) == Support(I.init)
(* outcomes of acting in memory m: <<next state, observations, rewards, terminal>> *)
Outcomes(I, m, a) == UNION {{<<x, o, Value(I, m, a, x), Terminal(I, x)>> : o \in Observations(I, x, a)} : x \in Nexts(I, m, a)}
(* ---------------- queries ---------------- *)
App(I, m) == I.app[Key(I, m)]
Applicable(I, m, a) == \A i \in Agents(I) : a[i] \in Range(App(I, m)[i])
Enabled(I, m) == Range(I.enabled[Key(I, m)])
IsAction(I, e) == \E i \in Agents(I) : e \in Range(I.acts[i])
IsGoal(I, o) == \A i \in Agents(I) : o[i] \in Range(I.goals[i])
IsObservation(I, o) == \A i \in Agents(I) : o[i] \in Range(I.obss[i])
(* equal distributions: pairs <<value, weight>> against observed <<value, probability in millionths>> *)
SameDist(q, d) ==
  LET tot == LET f(i) == q[i][2] IN SumOf(f, Len(q))
      W(x) == LET f(i) == IF q[i][1] = x THEN q[i][2] ELSE 0 IN SumOf(f, Len(q))
      P(x) == LET f(i) == IF d[i][1] = x THEN d[i][2] ELSE 0 IN SumOf(f, Len(d))
      vals == {q[i][1] : i \in DOMAIN q} \cup {d[i][1] : i \in DOMAIN d}
  IN \A x \in vals : LET df == P(x) * tot - W(x) * 1000000 IN df <= 20 * tot /\ df >= 0 - 20 * tot
=============================================================================
