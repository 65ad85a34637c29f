------------------------------ MODULE CoreData ------------------------------
(* The value, outcome, distribution, space and constraint data types.       *)
EXTENDS Integers, Sequences, FiniteSets
(* a transition value from an optional reward and an optional cost: the reward wins, nothing given is worth zero *)
Reward(hasr, r, hasc, c) == IF hasr THEN r ELSE IF hasc THEN 0 - c ELSE 0
(* how many values and infos an outcome carries when none is given: one per agent, one when there are no agents *)
PerAgent(n) == IF n = 0 THEN 1 ELSE n
(* support of a declared distribution *)
Positive(q) == {q[i][1] : i \in {i \in DOMAIN q : q[i][2] > 0}}
Holds(v, rel, b) == CASE rel = "<" -> v < b [] rel = "<=" -> v <= b [] rel = ">" -> v > b [] rel = ">=" -> v >= b
=============================================================================
