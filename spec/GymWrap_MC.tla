---------------------------- MODULE GymWrap_MC ----------------------------
(* One mutable environment behind a domain whose states can be continued in any order: by restoring a snapshot  *)
(* ("set") or by copying environments ("copy").  Every remembered state must stay what it is.  Also the growth   *)
(* of the interval features. *)
EXTENDS GymWrap, TLC
CONSTANTS Np, Na, Nh, V, Nv
VARIABLES mode, T, cell, saved, truth, N, seen
vars == <<mode, T, cell, saved, truth, N, seen>>
Pos == 1..Np
Env == [step |-> [p \in Pos |-> [a \in 1..Na |-> [to |-> T[p][a], r |-> 0, done |-> T[p][a] = Np]]]]
(* cell: environment objects by number; saved: for every handle [obj, snap]; truth: what the handle means *)
Init == \/ /\ mode \in {"set", "copy"} /\ T \in [Pos -> [1..Na -> Pos]] /\ cell = <<1>> /\ saved = <<[obj |-> 1, snap |-> 1]>> /\ truth = <<Root(1)>>
           /\ N = <<>> /\ seen = <<>>
        \/ mode = "bee" /\ T = <<>> /\ cell = <<>> /\ saved = <<>> /\ truth = <<>> /\ N = <<>> /\ seen = <<>>
Grow(h, a) == LET from == IF mode = "set" THEN saved[h].snap ELSE cell[saved[h].obj]
                  to == To(Env, from, a) IN
  /\ cell' = IF mode = "set" THEN <<to>> ELSE Append(cell, to)
  /\ saved' = Append(saved, [obj |-> IF mode = "set" THEN 1 ELSE Len(cell) + 1, snap |-> to])
  /\ truth' = Append(truth, Child(Env, truth[h], a))
Step == \/ mode \in {"set", "copy"} /\ Len(truth) < Nh /\ \E h \in DOMAIN truth, a \in 1..Na : Grow(h, a) /\ UNCHANGED <<mode, T, N, seen>>
        \/ mode = "bee" /\ Len(seen) < Nv /\ \E x \in 0..V : LET r == Bee2(N, x, 1) IN
             N' = r.n /\ seen' = Append(seen, [x |-> x, f |-> r.f[1]]) /\ UNCHANGED <<mode, T, cell, saved, truth>>
Spec == Init /\ [][Step]_vars
Remembered == mode \in {"set", "copy"} => \A h \in DOMAIN truth : (IF mode = "set" THEN saved[h].snap ELSE cell[saved[h].obj]) = truth[h].p
(* the intervals tile what was seen, and the feature of a value never changes *)
Tiled == (mode = "bee" /\ N # <<>>) =>
  /\ \A i \in 2..Len(N) : N[i].lo < N[i].hi
  /\ \A i, j \in DOMAIN N : (i # j /\ N[i].lo < N[j].lo) => N[i].hi <= N[j].lo
  /\ \A i \in DOMAIN seen : Inside(N, seen[i].x) # {}
Steady == mode = "bee" => \A i, j \in DOMAIN seen : seen[i].x = seen[j].x => seen[i].f = seen[j].f
=============================================================================
