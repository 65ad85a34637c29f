------------------------------- MODULE Adapt -------------------------------
(* A domain or solver seen from another level of agents, concurrency and memory. *)
(* Data are trees [t, a, c]: kind of node, atom, children.  A hint is a tree      *)
(* [k, sub]: what the interface declares there.                                   *)
EXTENDS Integers, Sequences, FiniteSets
Node(t, a, c) == [t |-> t, a |-> a, c |-> c]
Item(k, x) == Node("item", k, <<x>>)
H(k, sub) == [k |-> k, sub |-> sub]
Leaf == H("leaf", <<>>)
Agent(h) == H("agent", <<h>>)
Conc(h) == H("conc", <<h>>)
Mem(h) == H("mem", <<h>>)
Opt(h) == H("opt", <<h>>)
(* what an interface position looks like at a level *)
Container(h, L) ==
  CASE h.k = "agent" -> IF L.multi THEN "dict" ELSE "bare"
    [] h.k = "conc"  -> IF L.par THEN "list" ELSE "bare"
    [] h.k = "mem"   -> IF L.hist THEN "mem" ELSE "bare"
    [] OTHER -> h.k
RECURSIVE Conforms(_, _, _), Cast(_, _, _, _), Leaves(_, _, _)
ForAll(c, P(_)) == \A i \in 1..Len(c) : P(c[i])
Conforms(x, h, L) ==
  LET k == Container(h, L) IN
  CASE k = "bare" -> Conforms(x, h.sub[1], L)
    [] k = "leaf" \/ k = "space" -> TRUE
    [] k = "opt" -> x.t = "none" \/ Conforms(x, h.sub[1], L)
    [] k = "dict" -> x.t = "dict" /\ ForAll(x.c, LAMBDA y : y.t = "item" /\ Conforms(y.c[1], h.sub[1], L))
    [] k = "list" -> x.t = "list" /\ ForAll(x.c, LAMBDA y : Conforms(y, h.sub[1], L))
    [] k = "mem"  -> x.t = "mem" /\ ForAll(x.c, LAMBDA y : Conforms(y, h.sub[1], L))
    [] k = "dist" -> x.t \in {"dist", "single", "implicit"} /\ ForAll(x.c, LAMBDA y : Conforms(y.c[1], h.sub[1], L))
    [] k = "outcome" -> x.t \in {"eout", "tout"} /\ Len(x.c) = 3 /\ \A i \in 1..3 : Conforms(x.c[i], h.sub[i], L)
(* the same data re-wrapped from level S to level T *)
Unwrap(x) == IF x.t = "dict" THEN x.c[1].c[1] ELSE x.c[1]
Cast(x, h, S, T) ==
  LET a == Container(h, S)
      b == Container(h, T)
      Sub(y) == Cast(y, h.sub[1], S, T)
      Each(c) == [i \in 1..Len(c) |-> Sub(c[i])]
      EachItem(c) == [i \in 1..Len(c) |-> Node("item", c[i].a, <<Sub(c[i].c[1])>>)]
  IN CASE a = "leaf" \/ a = "space" -> x
       [] a = "opt" -> IF x.t = "none" THEN x ELSE Sub(x)
       [] a = "bare" /\ b = "bare" -> Sub(x)
       [] a = "bare" /\ b = "dict" -> Node("dict", "", <<Item("agent", Sub(x))>>)
       [] a = "bare" -> Node(b, "", <<Sub(x)>>)
       [] b = "bare" -> Sub(Unwrap(x))
       [] a = "dict" \/ a = "dist" -> Node(x.t, x.a, EachItem(x.c))
       [] a = "outcome" -> Node(x.t, x.a, [i \in 1..3 |-> Cast(x.c[i], h.sub[i], S, T)])
       [] OTHER -> Node(x.t, x.a, Each(x.c))
(* is there a view at all: one agent, one action, one remembered state when the other side has no container *)
RECURSIVE Castable(_, _, _, _)
Castable(x, h, S, T) ==
  LET a == Container(h, S)
      b == Container(h, T)
  IN CASE a = "leaf" \/ a = "space" -> TRUE
       [] a = "opt" -> x.t = "none" \/ Castable(x, h.sub[1], S, T)
       [] a = "bare" -> Castable(x, h.sub[1], S, T)
       [] b = "bare" -> Len(x.c) = 1 /\ Castable(Unwrap(x), h.sub[1], S, T)
       [] a = "dict" \/ a = "dist" -> ForAll(x.c, LAMBDA y : Castable(y.c[1], h.sub[1], S, T))
       [] a = "outcome" -> \A i \in 1..3 : Castable(x.c[i], h.sub[i], S, T)
       [] OTHER -> ForAll(x.c, LAMBDA y : Castable(y, h.sub[1], S, T))
(* everything inside, in order, without its wrapping *)
RECURSIVE Flat(_)
Flat(q) == IF Len(q) = 0 THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Leaves(x, h, L) ==
  LET k == Container(h, L)
      Sub(y) == Leaves(y, h.sub[1], L)
  IN CASE k = "leaf" \/ k = "space" -> <<x>>
       [] k = "opt" -> IF x.t = "none" THEN <<x>> ELSE Sub(x)
       [] k = "bare" -> Sub(x)
       [] k = "dict" \/ k = "dist" -> Flat([i \in 1..Len(x.c) |-> Sub(x.c[i].c[1])])
       [] k = "outcome" -> Flat([i \in 1..3 |-> Leaves(x.c[i], h.sub[i], L)])
       [] OTHER -> Flat([i \in 1..Len(x.c) |-> Sub(x.c[i])])
(* the interface: arguments and result of every method *)
State == Leaf
Event == Leaf
Action == Agent(Conc(Event))
Memory == Mem(State)
Obs == Agent(Leaf)
Value == Agent(Leaf)
Info == Agent(Leaf)
Env == H("outcome", <<Obs, Value, Info>>)
Dist(h) == H("dist", <<h>>)
Space == H("space", <<>>)
No == <<>>
M(args, ret) == [args |-> args, ret |-> ret]
Methods == [
  step |-> M(<<Action>>, Env), set_memory |-> M(<<Memory>>, Leaf), sample |-> M(<<Memory, Action>>, Env),
  get_next_state_distribution |-> M(<<Memory, Action>>, Dist(State)),
  get_transition_value |-> M(<<Memory, Action, Opt(State)>>, Value),
  is_transition_value_dependent_on_next_state |-> M(No, Leaf), is_terminal |-> M(<<State>>, Leaf),
  get_next_state |-> M(<<Memory, Action>>, State),
  get_constraints |-> M(No, Leaf),
  get_enabled_events |-> M(<<Opt(Memory)>>, Space), is_enabled_event |-> M(<<Event, Opt(Memory)>>, Leaf),
  get_action_space |-> M(No, Agent(Space)), is_action |-> M(<<Event>>, Leaf),
  get_applicable_actions |-> M(<<Opt(Memory)>>, Agent(Space)),
  is_applicable_action |-> M(<<Agent(Event), Opt(Memory)>>, Leaf),
  get_goals |-> M(No, Agent(Space)), is_goal |-> M(<<Obs>>, Leaf),
  get_observation_space |-> M(No, Agent(Space)), is_observation |-> M(<<Obs>>, Leaf),
  get_observation_distribution |-> M(<<State, Opt(Action)>>, Dist(Obs)),
  get_observation |-> M(<<State, Opt(Action)>>, Obs),
  reset |-> M(No, Obs), get_initial_state_distribution |-> M(No, Dist(State)), get_initial_state |-> M(No, State),
  check_value |-> M(<<Leaf>>, Leaf), render |-> M(<<Opt(Memory)>>, Leaf),
  (* solvers *)
  sample_action |-> M(<<Obs>>, Action), is_policy_defined_for |-> M(<<Obs>>, Leaf),
  get_next_action |-> M(<<Obs>>, Action), get_next_action_distribution |-> M(<<Obs>>, Dist(Action)),
  get_utility |-> M(<<Obs>>, Leaf), get_q_value |-> M(<<Obs, Action>>, Leaf), solve_from |-> M(<<Memory>>, Leaf) ]
ConstraintArgs == <<Memory, Action, State>>
=============================================================================
