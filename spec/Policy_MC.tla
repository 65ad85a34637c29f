----------------------------- MODULE Policy_MC -----------------------------
(* Every small project, every order and every rule: the policy keeps        *)
(* precedence and capacity, always finishes, lets time pass only when none  *)
(* of the tasks it considers can start, and following a feasible plan       *)
(* reproduces its dates.  The rules are ordered by what they consider.      *)
EXTENDS Policy, TLC
CONSTANTS NT, MAXD, CAP, TOP
VARIABLES I, P, x
vars == <<I, P, x>>
K == 1..NT
Mk(d, u, E) ==
  [n |-> NT, m |-> 1, nt |-> 1, nk |-> 0, hor |-> NT * MAXD, ren |-> <<TRUE>>,
   need |-> [k \in K |-> <<<<<<u[k]>>>>>>], avail |-> <<<<CAP>>>>,
   preds |-> [k \in K |-> SetToSeq({j \in K : <<j, k>> \in E})],
   dist |-> [k \in K |-> <<<<<<d[k], 1>>>>>>], conds |-> [k \in K |-> <<>>], exist |-> [k \in K |-> <<>>],
   pre |-> [k \in K |-> FALSE], ret |-> [k \in K |-> TRUE], mk |-> TRUE, cost |-> FALSE,
   mcost |-> [k \in K |-> <<0>>], ucost |-> <<0>>, rsk |-> <<<<>>>>, tsk |-> [k \in K |-> <<<<>>>>]]
Perms == {p \in [K -> K] : \A a, b \in K : a # b => p[a] # p[b]}
Pol(rule, p, s, dt, di) == [rule |-> rule, perm |-> p, mode |-> [k \in K |-> 1], crew |-> [k \in K |-> <<>>], sch |-> s, dt |-> dt, di |-> di, go |-> FALSE]
Edges == {<<a, b>> \in K \X K : a < b}
Dur(k) == I.dist[k][1][1][1]
Pols == {Pol("ready", p, <<>>, 0, 0) : p \in Perms}
        \cup {Pol("strict", p, <<>>, 0, 0) : p \in Perms}
        \cup {Pol(r, [k \in K |-> k], q, dt, di) : r \in {"gantt", "strict", "time"}, q \in [K -> 0..TOP], dt \in 0..1, di \in {0}}
        \cup {Pol("index", p, <<>>, 0, 1) : p \in Perms}
        \cup {Pol(r, [k \in K |-> k], <<>>, 0, 0) : r \in {"most", "fast", "sample", "any"}}
Init == /\ \E d \in [K -> 0..MAXD], u \in [K -> 1..CAP], E \in SUBSET Edges : I = Mk(d, [k \in K |-> IF d[k] = 0 THEN 0 ELSE u[k]], E)
        /\ P \in Pols
        /\ P.rule = "gantt" => PlanFits(I, P, Dur)
        /\ x = InitState(I)
Next == /\ ~Terminal(I, x)
        /\ \E a \in Answers(I, P, x) : x' = Succ(I, x, a)[1][1]
        /\ UNCHANGED <<I, P>>
Spec == Init /\ [][Next]_vars
Legal == Lifecycle(I, x) /\ Precedence(I, x) /\ Conserved(I, x) /\ WithinCapacity(I, x)
Ends == Terminal(I, x) => Goal(I, x)
OnPlan == P.rule = "gantt" => \A k \in K : x.start[k] # None => x.start[k] = P.sch[k]
NoMiss == P.rule = "gantt" => \A k \in K : x.start[k] = None => P.sch[k] >= x.t
Busy == (~Terminal(I, x) /\ TimeP \in Answers(I, P, x) /\ P.rule # "gantt") => In(x, I, "run") # {}
NonDelay == (P.rule \in {"ready", "most", "fast", "any", "sample"} /\ ~Terminal(I, x)) =>
              (TimeP \in Answers(I, P, x) <=> \A k \in Ready(I, x) : ~CanP(I, P, x, k))
Nested == P.rule \in {"strict", "time"} =>
            LET S(r, dt, di) == ToSetOf(Considered(I, [P EXCEPT !.rule = r, !.dt = dt, !.di = di], x)) IN
            /\ S("strict", 0, 0) = S("time", 0, 0)
            /\ S("time", 0, 0) \subseteq S("time", 1, 0) /\ S("time", 1, 0) \subseteq S("ready", 0, 0)
            /\ S("index", 0, 0) \subseteq S("index", 0, 1) /\ S("index", 0, NT) = S("ready", 0, 0)
=============================================================================
