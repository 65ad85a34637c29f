-------------------------- MODULE Aggregate_Trace --------------------------
EXTENDS Aggregate, TraceBase
(* tr.own: the objectives a problem declares, in order: [w weight]; names are 1..n, values of a result one per name *)
GInit(tr) == 0
GNext(tr, z, e) == z
Fr(x) == Frac(x[1], x[2])
GFails(tr, z, e) ==
  CASE e.op = "default" -> \* the combination a problem declares
         If(e.objs = e.dobjs /\ e.ws = e.dws, "default.objectives") \cup If(e.how = e.dhow, "default.handling") \cup If(e.sense = e.dsense, "default.direction")
    [] e.op = "fit" -> LET f == Fitness(e.how, e.res, e.objs, e.ws) IN
         If(e.got = f, "fitness.solution") \cup If(e.dict = f, "fitness.evaluation")
    [] e.op = "mobj" -> LET f == Weighted(e.res, e.objs, e.ws) IN If(e.got = f, "vector.solution") \cup If(e.dict = f, "vector.evaluation")
    [] e.op = "declared" -> If(Rng(e.objs) \subseteq Rng(e.keys), "declared.provided")
    [] e.op = "robust" -> \* q[k]: the values of objective k, one per scenario; got[k] the combined one
         If(DOMAIN e.got = DOMAIN e.q /\ \A k \in DOMAIN e.q : SameFrac(Fr(e.got[k]), Combine(e.how, e.par, e.ws, e.q[k])), "scenarios." \o e.how)
    [] e.op = "robustfit" -> \* weighted sum of combined values, dw: common scale
         If(SameFrac(Fr(e.got), LET c == [i \in DOMAIN e.objs |-> Combine(e.how, e.par, e.ws, e.q[e.objs[i]])] IN
              Frac(Total([i \in DOMAIN c |-> e.fw[i] * c[i].n]), c[1].d)), "scenarios.fitness")
    [] e.op = "policy" ->
         LET M == [g |-> e.g, goal |-> Rng(e.goal), stop |-> Rng(e.stop), next |-> e.next, cost |-> e.cost]
             R == ReachFrom(M, {e.s0})  S == Sure(M, e.s0)
             v == [k \in {e.got[i][1] : i \in DOMAIN e.got} |-> LET i == CHOOSE i \in DOMAIN e.got : e.got[i][1] = k IN e.got[i][2]] IN
         If({k \in DOMAIN v : k \notin M.goal} = S \ M.goal, "policy.valued")
         \cup If(\A k \in DOMAIN v \cap S : v[k] = Expected(M, k, e.h), "policy.value")
         \cup If({e.acts[i][1] : i \in DOMAIN e.acts} = R \ M.stop /\ \A i \in DOMAIN e.acts : e.acts[i][2] = e.plan[e.acts[i][1]], "policy.actions")
         \cup If({<<e.preds[i][1], e.preds[i][2]>> : i \in DOMAIN e.preds} = {<<M.next[y][i].to, y>> : <<y, i>> \in UNION {{<<u, j>> : j \in Nexts(M, u)} : u \in R \ M.stop}}, "policy.predecessors")
    [] e.op = "rollouts" ->
         LET v == [k \in {e.got[i][1] : i \in DOMAIN e.got} |-> LET i == CHOOSE i \in DOMAIN e.got : e.got[i][1] = k IN Frac(e.got[i][2], e.got[i][3])] IN
         If(DOMAIN v = Visited(e.X), "rollouts.visited") \cup If(\A k \in DOMAIN v \cap Visited(e.X) : SameFrac(v[k], Estimate(e.X, k)), "rollouts.estimate")
         \cup If(Len(e.X) = e.n, "rollouts.number")
         \cup If({<<e.links[i][1], e.links[i][2]>> : i \in DOMAIN e.links} = UNION {{<<e.X[i][j].s, e.X[i][j].to>> : j \in DOMAIN e.X[i]} : i \in DOMAIN e.X}, "rollouts.successors")
         \cup If(e.steady, "rollouts.policy")
    [] e.op = "ends" -> \* mean duration of the executions
         If(SameFrac(Fr(e.got), Frac(Total(e.q), Len(e.q))), "rollouts.duration") \cup If(Len(e.q) = e.n, "rollouts.number")
    [] e.op = "kept" -> If(e.same, "rollouts.sideeffect")
    [] OTHER -> {"unknown"}
=============================================================================
