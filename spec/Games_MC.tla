------------------------------ MODULE Games_MC ------------------------------
(* All plays of all small games. *)
EXTENDS Games, TLC
CONSTANTS C, P, M, W, H
VARIABLES G, st, path
vars == <<G, st, path>>
MM == {[kind |-> "mm", size |-> <<c, p>>] : c \in 1..C, p \in 1..P}
RPS == {[kind |-> "rps", size |-> <<m>>] : m \in 1..M}
GRID == {[kind |-> "grid", size |-> <<w, h>>] : w \in 1..W, h \in 1..H}
Cells == {<<x, y>> : x \in 0..(W - 1), y \in 0..(H - 1)}
MAZE == {[kind |-> "maze", rows |-> [y \in 1..H |-> [x \in 1..W |-> IF <<x - 1, y - 1>> \in f THEN 1 ELSE 0]], start |-> a, goal |-> b] : f \in SUBSET Cells, a \in Cells, b \in Cells}
Good == {g \in MAZE : Free(g, g.start) /\ Free(g, g.goal) /\ g.start # g.goal}
Init == G \in MM \cup RPS \cup GRID \cup Good /\ st \in Starts(G) /\ path = <<>>
Step == /\ ~Over(G, st) /\ (G.kind \in {"mm", "rps"} => Len(path) < M + 1)
        /\ \E a \in Acts(G) : st' = NextState(G, st, a) /\ path' = (IF G.kind \in {"grid", "maze"} THEN <<>> ELSE <<a>>) /\ UNCHANGED G
Spec == Init /\ [][Step]_vars
(* scores: at most one peg per position; all bulls exactly for the solution; no score of n-1 bulls and a cow; guessing is symmetric *)
Scores == G.kind = "mm" => \A g \in Acts(G) : LET c == Score(G, st, g) n == G.size[2] IN
  /\ c[1] \in 0..n /\ c[2] >= 0 /\ c[1] + c[2] \in 0..n /\ (c[1] = n <=> g = Solution(G, st)) /\ c # <<n - 1, 1>>
  /\ c = Score(G, g \o <<0, 0>>, Solution(G, st))
Secret == G.kind = "mm" => (path # <<>> => SubSeq(st, G.size[2] + 1, G.size[2] + 2) = Seen(G, st, path[1]))
(* zero-sum; no move is best against every move *)
Fair == G.kind = "rps" => \A a \in Acts(G) : Sum(Rewards(G, st, a)) = 0
Cyclic == G.kind = "rps" => \A m \in 0..2 : Cardinality({o \in 0..2 : Win(m, o) = 1}) = 1 /\ Cardinality({o \in 0..2 : Win(o, m) = 1}) = 1
Bounded == G.kind = "rps" => st[1] <= G.size[1]
(* walkers stay on passages; every real step can be taken back and moves one cell *)
Back(a) == <<CASE a = 0 -> 1 [] a = 1 -> 0 [] a = 2 -> 3 [] OTHER -> 2>>
Walk == G.kind \in {"grid", "maze"} => /\ Free(G, st)
  /\ \A a \in Acts(G) : LET t == NextState(G, st, a) IN t # st => NextState(G, t, Back(a[1])) = st /\ Rewards(G, st, a) = <<-1>>
(* the grid's goal can be reached from everywhere *)
RECURSIVE Closer(_, _)
Closer(g, p) == IF Over(g, p) THEN TRUE ELSE \E a \in {<<1>>, <<3>>} : NextState(g, p, a) # p /\ Closer(g, NextState(g, p, a))
Reachable == G.kind = "grid" => Closer(G, st)
=============================================================================
