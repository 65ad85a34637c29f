---------------------------- MODULE Games_Trace ----------------------------
(* Calls on a bundled game; the state z is the state of the running play.   *)
EXTENDS Games, TraceBase
GInit(tr) == <<>>
GFails(tr, z, e) ==
  LET G == tr.G IN
  CASE e.op = "starts" -> \* declared initial states with their weights (per thousand of 1/number), the legal moves
         If(SeqToSet(e.st) = Starts(G) /\ Len(e.st) = Cardinality(Starts(G)), "start.states") \cup If(\A i \in DOMAIN e.w : e.w[i] = 1000, "start.uniform")
         \cup If(SeqToSet(e.acts) = Acts(G) /\ Len(e.acts) = Cardinality(Acts(G)), "moves.legal") \cup If(e.same, "moves.applicable")
    [] e.op = "ask" -> \* the rules asked in any state
         LET n == NextState(G, e.st, e.a) IN
         If(e.next = n, "transition") \cup If(e.value = Rewards(G, e.st, e.a), "value") \cup If(e.cost = [i \in DOMAIN e.value |-> 0 - e.value[i]], "cost")
         \cup If(e.over = Over(G, e.st) /\ e.overnext = Over(G, n), "terminal") \cup If(e.obs = Seen(G, n, e.a), "observation")
         \cup If(e.goal = GoalSeen(G, Seen(G, n, e.a)), "goal") \cup If(e.inspace, "observation.space")
    [] e.op = "reset" -> If(e.st \in Starts(G), "start.states") \cup If(e.obs = SeenFirst(G, e.st), "start.observation") \cup If(e.inspace, "observation.space")
    [] e.op \in {"step", "sample"} -> \* sample leaves the play where it is
         LET n == NextState(G, z, e.a) IN
         If(e.st = (IF e.op = "step" THEN n ELSE z), "transition") \cup If(e.obs = Seen(G, n, e.a), "observation") \cup If(e.value = Rewards(G, z, e.a), "value")
         \cup If(e.over = Over(G, n), "terminal") \cup If(e.inspace, "observation.space")
         \cup If(G.kind = "rps" \/ (e.goal = GoalSeen(G, Seen(G, n, e.a)) /\ (e.goal = Over(G, n))), "goal")
    [] e.op = "draw" -> \* the picture of the maze: 0 wall, 10 passage, 7 goal, 3 walker
         If(e.pic = [y \in DOMAIN G.rows |-> [x \in DOMAIN G.rows[y] |->
             IF <<x - 1, y - 1>> = z THEN 3 ELSE IF <<x - 1, y - 1>> = G.goal THEN 7 ELSE 10 * G.rows[y][x]]], "picture")
         \cup If(e.st = z, "picture.sideeffect")
    [] OTHER -> {"unknown"}
GNext(tr, z, e) == IF e.op \in {"reset", "step"} THEN e.st ELSE z
=============================================================================
