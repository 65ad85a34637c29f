---------------------------- MODULE SolverMatch ----------------------------
(* Characteristics of domains form chains, weakest first; a stronger one stands for every weaker one. *)
EXTENDS Integers, Sequences, FiniteSets
Chains == [
  agent |-> <<"MultiAgent", "SingleAgent">>, concurrency |-> <<"Parallel", "Sequential">>, constraints |-> <<"Constrained">>,
  dynamics |-> <<"Environment", "Simulation", "UncertainTransitions", "EnumerableTransitions", "DeterministicTransitions">>,
  events |-> <<"Events", "Actions", "UnrestrictedActions">>, goals |-> <<"Goals">>,
  initialization |-> <<"Initializable", "UncertainInitialized", "DeterministicInitialized">>,
  memory |-> <<"History", "FiniteHistory", "Markovian", "Memoryless">>,
  observability |-> <<"PartiallyObservable", "TransformedObservable", "FullyObservable">>,
  renderability |-> <<"Renderable">>, value |-> <<"Rewards", "PositiveCosts">> ]
Families == DOMAIN Chains
Always == {"agent", "concurrency", "dynamics", "events", "memory", "observability", "value"}
(* a level: how far along each chain (0: the optional characteristic is absent) *)
IsLevel(x) == /\ DOMAIN x = Families
              /\ \A f \in Families : x[f] \in (IF f \in Always THEN 1 ELSE 0)..Len(Chains[f])
Meets(d, r) == \A f \in Families : d[f] >= r[f]
Required(r) == {Chains[f][r[f]] : f \in {g \in Families : r[g] > 0}}
Accepts(d, r, additional) == Meets(d, r) /\ additional
Accepted(C, A(_)) == {c \in C : A(c)}
(* the levels of the bundled domains and solvers *)
Lv(a, c, k, d, e, g, i, m, o, n, v) == [agent |-> a, concurrency |-> c, constraints |-> k, dynamics |-> d, events |-> e, goals |-> g,
  initialization |-> i, memory |-> m, observability |-> o, renderability |-> n, value |-> v]
Helper == [
  Domain |-> Lv(1, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1),
  RLDomain |-> Lv(2, 2, 0, 1, 2, 0, 1, 3, 2, 0, 1),
  MultiAgentRLDomain |-> Lv(1, 2, 0, 1, 2, 0, 1, 3, 2, 0, 1),
  StatelessSimulatorDomain |-> Lv(2, 2, 0, 2, 2, 0, 0, 3, 2, 0, 1),
  MDPDomain |-> Lv(2, 2, 0, 4, 2, 0, 3, 3, 3, 0, 1),
  POMDPDomain |-> Lv(2, 2, 0, 4, 2, 0, 2, 3, 1, 0, 1),
  GoalMDPDomain |-> Lv(2, 2, 0, 4, 2, 1, 3, 3, 3, 0, 2),
  GoalPOMDPDomain |-> Lv(2, 2, 0, 4, 2, 1, 2, 3, 1, 0, 2),
  DeterministicPlanningDomain |-> Lv(2, 2, 0, 5, 2, 1, 3, 3, 3, 0, 2),
  LazyAstar |-> Lv(2, 2, 0, 5, 2, 1, 0, 3, 3, 0, 2),
  LRTAstar |-> Lv(2, 2, 0, 5, 2, 1, 0, 3, 3, 0, 2),
  SimpleGreedy |-> Lv(2, 1, 0, 4, 1, 0, 0, 1, 3, 0, 1),
  POMCP |-> Lv(2, 2, 0, 4, 2, 1, 2, 1, 1, 0, 1),
  Maze |-> Lv(2, 2, 0, 5, 3, 1, 3, 3, 3, 1, 2),
  SimpleGridWorld |-> Lv(2, 2, 0, 5, 3, 1, 3, 3, 3, 0, 2),
  MasterMind |-> Lv(2, 2, 0, 5, 3, 1, 2, 3, 2, 0, 2),
  RockPaperScissors |-> Lv(1, 2, 0, 1, 3, 0, 1, 3, 2, 1, 1) ]
=============================================================================
