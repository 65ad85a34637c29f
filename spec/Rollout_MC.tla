----------------------------- MODULE Rollout_MC -----------------------------
EXTENDS Rollout, TLC
CONSTANTS Maxes, Episodes
T2 == << << <<<<1, 1>>, <<2, 1>>>>, <<<<2, 1>>>> >>, << <<<<2, 1>>, <<1, 1>>>>, <<<<1, 1>>>> >> >>
Base == [ag |-> 1, na |-> 2, keys |-> 2, mlen |-> 1, kind |-> "state", trans |-> T2,
  val |-> [k \in 1..2 |-> [a \in 1..2 |-> [x \in 1..2 |-> <<k - a + x>>]]],
  obs |-> [x \in 1..2 |-> [a \in 1..3 |-> IF a = 1 THEN << <<<<x>>, 1>> >> ELSE << <<<<x>>, 1>>, <<<<1>>, 1>> >>]],
  init |-> <<<<1, 1>>, <<2, 1>>>>, term |-> <<FALSE, TRUE>>, app |-> << <<<<1, 2>>>>, <<<<1>>>> >>]
VARIABLES I, J, z
vars == <<I, J, z>>
Init == /\ I \in {Base, [Base EXCEPT !.mlen = 2, !.kind = "history"]}
        /\ J \in [max : Maxes \cup {None}, episodes : 1..Episodes, from : BOOLEAN, m : {<<1>>, <<2>>}, fa : {<<>>, <<1>>}, policy : BOOLEAN]
        /\ (~J.from => J.m = <<1>> /\ J.fa = <<>>)
        /\ z = RInit
A == {<<1>>, <<2>>}
Next == /\ UNCHANGED <<I, J>>
        /\ \/ MaySolverReset(J, z) /\ z' = SolverReset(J, z)
           \/ MayPlace(J, z) /\ ~J.from /\ \E x \in Inits(I) : \E o \in Observations(I, x, <<>>) : z' = DomainReset(I, J, z, x, o)
           \/ MayPlace(J, z) /\ J.from /\ z' = SetMemory(I, J, z)
           \/ J.policy /\ MayChoose(J, z) /\ \E o \in z.o, a \in A : z' = Choose(z, o, a)
           \/ MayStep(J, z) /\ \E a \in A : MayAct(I, J, z, a) /\ \E out \in Outcomes(I, z.mem, a) : z' = StepTo(I, z, a, out)
Bounded == z.n <= 3
(* every completed episode is a legal execution *)
EpOk(ep) == /\ Len(ep.vals) = Len(ep.acts) /\ (J.max # None => Len(ep.acts) <= J.max)
            /\ (Len(ep.acts) > 0 => Len(ep.obs) = Len(ep.acts) + 1)
InvEpisodes == Len(z.eps) <= J.episodes /\ \A k \in DOMAIN z.eps : EpOk(z.eps[k])
InvAction == z.ph = "apply" => J.policy /\ Cardinality(z.o) = 1
InvStop == (z.ph = "apply" \/ z.n > J.max) => ~z.term \/ J.max = None
InvOneStart == z.ph # "begin" => (z.sr \/ ~J.policy) /\ z.ds
InvMem == z.ph # "begin" => Len(z.mem) >= 1
=============================================================================
