--------------------------- MODULE EnvDomain_MC ---------------------------
(* Environment and simulator use of small domains with every memory length; *)
(* hist is a ghost: everything that happened since the last reset or set.   *)
EXTENDS EnvDomain, TLC
CONSTANTS MaxHist
T2 == << << <<<<1, 1>>, <<2, 1>>>>, <<<<2, 1>>>> >>, << <<<<2, 1>>>>, <<<<3, 2>>, <<1, 0>>>> >>, << <<<<3, 1>>>>, <<<<1, 1>>, <<3, 1>>>> >> >>
Base == [ag |-> 1, na |-> 2, keys |-> 3, mlen |-> 1, kind |-> "state",
  trans |-> T2, val |-> [k \in 1..3 |-> [a \in 1..2 |-> [x \in 1..3 |-> <<k + 2 * a - x>>]]],
  obs |-> [x \in 1..3 |-> [a \in 1..3 |-> IF a = 1 THEN << <<<<x>>, 1>> >> ELSE << <<<<x>>, 1>>, <<<<1>>, 1>> >>]],
  init |-> <<<<1, 1>>, <<2, 1>>>>, term |-> <<FALSE, FALSE, TRUE>>, goals |-> <<<<3>>>>,
  app |-> << <<<<1, 2>>>>, <<<<1>>>>, <<<<2>>>> >>, enabled |-> <<<<>>, <<7>>, <<>>>>, acts |-> <<<<1, 2>>>>, obss |-> <<<<1, 2, 3>>>>]
Instances == <<Base, [Base EXCEPT !.mlen = 0, !.kind = "none"], [Base EXCEPT !.mlen = 1, !.kind = "history"],
  [Base EXCEPT !.mlen = 2, !.kind = "history"], [Base EXCEPT !.mlen = 3, !.kind = "history"], [Base EXCEPT !.mlen = None, !.kind = "history"]>>
VARIABLES i, mem, hist, live, out
I == Instances[i]
Init == i \in DOMAIN Instances /\ mem = <<>> /\ hist = <<>> /\ live = FALSE /\ out = <<>>
Reset == \E x \in Inits(I) : mem' = Start(I, x) /\ hist' = <<x>> /\ live' = TRUE /\ out' = <<>>
Step == live /\ \E a \in {<<b>> : b \in 1..I.na} : Applicable(I, mem, a) /\ \E o \in Outcomes(I, mem, a) :
          mem' = Remember(I, mem, o[1]) /\ hist' = Append(hist, o[1]) /\ out' = o /\ UNCHANGED live
Sample == live /\ \E a \in {<<b>> : b \in 1..I.na} : \E o \in Outcomes(I, mem, a) : out' = o /\ UNCHANGED <<mem, hist, live>>
SetMem == \E h \in {<<1>>, <<2, 3>>} : mem' = Keep(I, h) /\ hist' = h /\ live' = TRUE /\ out' = <<>>
Next == (Reset \/ Step \/ Sample \/ SetMem) /\ UNCHANGED i
Bounded == Len(hist) <= MaxHist
InvMemory == live => mem = Keep(I, hist)
InvLength == CASE I.kind = "none" -> mem = <<>> [] I.kind = "state" -> live => Len(mem) = 1 [] OTHER -> I.mlen = None \/ Len(mem) <= I.mlen
InvOutcome == out # <<>> => out[4] = Terminal(I, out[1]) /\ out[2] \in {<<out[1]>>, <<1>>}
InvGoal == \A o \in 1..3 : IsGoal(I, <<o>>) => IsObservation(I, <<o>>)
InvApp == live => \A a \in 1..2 : Applicable(I, mem, <<a>>) => IsAction(I, a)
=============================================================================
