--------------------------- MODULE SolverMatch_MC ---------------------------
(* Solvers and domains in use together: matching, solving, asking and resetting in any order.                 *)
(* What a solver knows is the domain it was last given, whatever happens around it; acceptance is a partial   *)
(* order on levels, and depends on the solver class and the domain only.                                      *)
EXTENDS SolverMatch, TLC
CONSTANTS Solvers, Doms, Some
None == 0
(* the levels of a few families vary, the others stay at their weakest *)
LevelSet == LET base == [f \in Families |-> IF f \in Always THEN 1 ELSE 0] IN
            {[f \in Families |-> IF f \in Some THEN g[f] ELSE base[f]] :
               g \in {h \in [Some -> 0..5] : \A f \in Some : h[f] \in (IF f \in Always THEN 1 ELSE 0)..Len(Chains[f])}}
Order ==
  /\ \A x \in LevelSet : IsLevel(x) /\ Meets(x, x)
  /\ \A x, y \in LevelSet : Meets(x, y) /\ Meets(y, x) => x = y
  /\ \A x, y, z \in LevelSet : Meets(x, y) /\ Meets(y, z) => Meets(x, z)
  /\ \A x, y \in LevelSet : Required(x) = Required(y) => x = y
  /\ \A x, y \in LevelSet : Meets(x, y) <=> \A f \in Families : y[f] > 0 => \E k \in y[f]..Len(Chains[f]) : x[f] = k
ASSUME Order
ASSUME \A h \in DOMAIN Helper : IsLevel(Helper[h])
VARIABLES given, asked
vars == <<given, asked>>
Init == given = [s \in Solvers |-> None] /\ asked = <<>>
Solve(s, d) == given' = [given EXCEPT ![s] = d] /\ asked' = <<>>
Ask(s) == given[s] # None /\ asked' = <<s, given[s]>> /\ UNCHANGED given
Reset(s) == UNCHANGED given /\ asked' = <<>>
Next == \E s \in Solvers : Ask(s) \/ Reset(s) \/ \E d \in Doms : Solve(s, d)
Spec == Init /\ [][Next]_vars
Fresh == asked # <<>> => asked[2] = given[asked[1]]
Isolated == [][\A s \in Solvers : given'[s] # given[s] => \A t \in Solvers \ {s} : given'[t] = given[t]]_vars
=============================================================================
