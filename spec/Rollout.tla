------------------------------ MODULE Rollout ------------------------------
(* A rollout: a caller that runs episodes on a domain (EnvDomain, instance I) *)
(* under a policy.  Job J = [max steps (None: no bound), episodes, from (start *)
(* at a given memory m, with last action fa), policy (TRUE: a solver is given)] *)
(* z = [ph, sr, ds, n, term, mem, o, a, obs, acts, vals, eps]:                *)
(*  ph "begin" (sr/ds: solver reset, domain placed), "choose", "apply"        *)
(*  o: observations the episode may go on from; eps: completed episodes       *)
EXTENDS EnvDomain
RInit == [ph |-> "begin", sr |-> FALSE, ds |-> FALSE, n |-> 0, term |-> FALSE, mem |-> <<>>, o |-> {}, a |-> <<>>,
          obs |-> <<>>, acts |-> <<>>, vals |-> <<>>, eps |-> <<>>]
Over(J, z) == z.ph = "choose" /\ (z.term \/ z.n = J.max)
Ready(J, z) == z.ph = "begin" /\ (z.sr \/ ~J.policy) /\ z.ds     \* the reset of the built-in random policy has no effect
(* the bookkeeping between two calls: an episode ends, an episode gets started *)
Close(z) == [RInit EXCEPT !.eps = Append(z.eps, [obs |-> z.obs, acts |-> z.acts, vals |-> z.vals]), !.mem = z.mem]
Settle(J, z) == IF Ready(J, z) THEN [z EXCEPT !.ph = "choose"] ELSE z
Finish(J, z) == IF Over(J, z) THEN Close(z) ELSE z
Done(J, z) == Finish(J, z).ph = "begin" /\ Len(Finish(J, z).eps) = J.episodes
(* ---- calls on the solver and the domain ---- *)
MayBegin(J, z) == LET y == Finish(J, z) IN y.ph = "begin" /\ Len(y.eps) < J.episodes
MaySolverReset(J, z) == J.policy /\ MayBegin(J, z) /\ ~Finish(J, z).sr
SolverReset(J, z) == Settle(J, [Finish(J, z) EXCEPT !.sr = TRUE])
MayPlace(J, z) == MayBegin(J, z) /\ ~Finish(J, z).ds
DomainReset(I, J, z, x, o) == Settle(J, [Finish(J, z) EXCEPT !.ds = TRUE, !.mem = Start(I, x), !.o = {o}, !.obs = <<o>>])
SetMemory(I, J, z) == Settle(J, [Finish(J, z) EXCEPT !.ds = TRUE, !.mem = Keep(I, J.m), !.o = Observations(I, J.m[Len(J.m)], J.fa)])
MayChoose(J, z) == z.ph = "choose" /\ ~Over(J, z)
Choose(z, o, a) == [z EXCEPT !.ph = "apply", !.o = {o}, !.a = a, !.obs = IF Len(z.obs) = 0 THEN <<o>> ELSE z.obs]
MayStep(J, z) == z.ph = "apply" \/ (~J.policy /\ MayChoose(J, z))
MayAct(I, J, z, a) == IF J.policy THEN a = z.a ELSE Applicable(I, z.mem, a)
(* without solver the first observation of an episode from a given memory stays unseen until it is returned *)
StepTo(I, z, a, out) == [z EXCEPT !.ph = "choose", !.n = z.n + 1, !.term = out[4], !.mem = Remember(I, z.mem, out[1]), !.o = {out[2]},
                         !.obs = Append(IF Len(z.obs) = 0 THEN <<<<>>>> ELSE z.obs, out[2]), !.acts = Append(z.acts, a), !.vals = Append(z.vals, out[3])]
(* ---- what is reported ---- *)
SameObs(I, J, rep, obs) == Len(rep) = IF Len(obs) = 0 THEN 1 ELSE Len(obs)
SameEpisode(I, J, e, ep) ==
  /\ e.acts = ep.acts /\ e.vals = ep.vals
  /\ Len(e.obs) = Len(ep.acts) + 1
  /\ \A k \in 2..Len(e.obs) : e.obs[k] = ep.obs[k]
  /\ IF Len(ep.obs) > 0 /\ ep.obs[1] # <<>> THEN e.obs[1] = ep.obs[1] ELSE e.obs[1] \in Observations(I, J.m[Len(J.m)], J.fa)
=============================================================================
