------------------------------- MODULE Games -------------------------------
(* The bundled games and grids: their rules as transition systems over      *)
(* sequences of integers.                                                   *)
(*  G.kind  state                 action          observation               *)
(*  "mm"    solution \o score     guess           <<bulls, cows>>           *)
(*  "rps"   <<moves played>>      <<m1, m2>>      the opponent's moves      *)
(*  "grid"  <<x, y>>              <<direction>>   the state                 *)
(*  "maze"  <<x, y>>              <<direction>>   the state                 *)
(* G.size: mm <<colours, positions>>, rps <<max moves>>, grid <<columns, rows>>; maze: G.rows[y][x] = 1 for a passage, G.start, G.goal *)
EXTENDS Integers, Sequences, FiniteSets
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
(* --- Mastermind: bulls are right colours in the right place, cows right colours elsewhere, every peg counting once *)
Bulls(sol, g) == Cardinality({i \in DOMAIN sol : sol[i] = g[i]})
Times(c, q) == Cardinality({i \in DOMAIN q : q[i] = c})
Common(k, sol, g) == Sum([c \in 1..k |-> Least(Times(c - 1, sol), Times(c - 1, g))])
Cows(k, sol, g) == Common(k, sol, g) - Bulls(sol, g)
Solution(G, st) == SubSeq(st, 1, G.size[2])
Score(G, st, g) == LET sol == Solution(G, st) IN <<Bulls(sol, g), Cows(G.size[1], sol, g)>>
(* --- rock (0), paper (1), scissors (2): each beats the one before it, cyclically *)
Win(m, o) == IF m = o THEN 0 ELSE IF (o + 1) % 3 = m THEN 1 ELSE -1
(* --- directions: 0 up, 1 down, 2 left, 3 right; y grows downwards *)
Moved(p, a) == <<p[1] + (IF a = 2 THEN -1 ELSE IF a = 3 THEN 1 ELSE 0), p[2] + (IF a = 0 THEN -1 ELSE IF a = 1 THEN 1 ELSE 0)>>
Free(G, p) == IF G.kind = "grid" THEN p[1] \in 0..(G.size[1] - 1) /\ p[2] \in 0..(G.size[2] - 1)
              ELSE p[2] + 1 \in DOMAIN G.rows /\ p[1] + 1 \in DOMAIN G.rows[p[2] + 1] /\ G.rows[p[2] + 1][p[1] + 1] = 1
(* --- the rules *)
NextState(G, st, a) == CASE G.kind = "mm" -> Solution(G, st) \o Score(G, st, a)
  [] G.kind = "rps" -> <<st[1] + 1>>
  [] OTHER -> IF Free(G, Moved(st, a[1])) THEN Moved(st, a[1]) ELSE st
(* what the players see after action a led to st *)
Seen(G, st, a) == CASE G.kind = "mm" -> Score(G, st, a) [] G.kind = "rps" -> <<a[2], a[1]>> [] OTHER -> st
SeenFirst(G, st) == CASE G.kind = "mm" -> <<0, 0>> [] G.kind = "rps" -> <<0, 0>> [] OTHER -> st
(* rewards, one per player; a cost is a negative reward *)
Rewards(G, st, a) == CASE G.kind = "mm" -> <<-1>> [] G.kind = "rps" -> <<Win(a[1], a[2]), Win(a[2], a[1])>>
  [] OTHER -> IF NextState(G, st, a) = st THEN <<-2>> ELSE <<-1>>
GoalSeen(G, o) == CASE G.kind = "mm" -> o = <<G.size[2], 0>> [] G.kind = "grid" -> o = <<G.size[1] - 1, G.size[2] - 1>> [] G.kind = "maze" -> o = G.goal [] OTHER -> FALSE
Over(G, st) == CASE G.kind = "mm" -> st[G.size[2] + 1] = G.size[2] [] G.kind = "rps" -> st[1] >= G.size[1] [] OTHER -> GoalSeen(G, st)
Tuples(S, n) == [1..n -> S]
Starts(G) == CASE G.kind = "mm" -> {q \o <<0, 0>> : q \in Tuples(0..(G.size[1] - 1), G.size[2])} [] G.kind = "rps" -> {<<0>>} [] G.kind = "grid" -> {<<0, 0>>} [] G.kind = "maze" -> {G.start}
Acts(G) == CASE G.kind = "mm" -> Tuples(0..(G.size[1] - 1), G.size[2]) [] G.kind = "rps" -> Tuples(0..2, 2) [] OTHER -> Tuples(0..3, 1)
=============================================================================
