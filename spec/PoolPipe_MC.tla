----------------------------- MODULE PoolPipe_MC -----------------------------
(* The protocol by which the pool does it, and that it keeps ParallelPool's   *)
(* promises: client threads look for a free worker (flag table), send a job   *)
(* down the worker's channel, wait for an acknowledgement, read the result    *)
(* slot of the worker and give it back.  Ipc: completions are also announced  *)
(* on a second channel; Lazy: a caller told of a failure there does not read  *)
(* the result and comes back with the same worker (what the C++ side does).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Workers, JobsPer, Atomic, Ipc, Lazy
VARIABLES active, chan, ack, note, slot, srv, pc, w, job, n, got, runs
vars == <<active, chan, ack, note, slot, srv, pc, w, job, n, got, runs>>
Jobs == Threads \X (1..JobsPer)
Fails(j) == (j[1] + j[2]) % 3 = 0
Outcome(j) == IF Fails(j) THEN <<0, 0>> ELSE j
Nothing == <<0, 0>>
Init == /\ active = [x \in Workers |-> FALSE] /\ chan = [x \in Workers |-> <<>>] /\ ack = [x \in Workers |-> 0] /\ note = [x \in Workers |-> <<>>]
        /\ slot = [x \in Workers |-> Nothing] /\ srv = [x \in Workers |-> Nothing] /\ pc = [t \in Threads |-> "look"] /\ w = [t \in Threads |-> 0]
        /\ job = [t \in Threads |-> Nothing] /\ n = [t \in Threads |-> 0] /\ got = [j \in Jobs |-> <<>>] /\ runs = [j \in Jobs |-> 0]
(* ---- callers ---- *)
Look(t) == /\ pc[t] = "look" /\ n[t] < JobsPer
           /\ \E x \in Workers : ~active[x] /\ w' = [w EXCEPT ![t] = x]
                /\ active' = IF Atomic THEN [active EXCEPT ![x] = TRUE] ELSE active
           /\ pc' = [pc EXCEPT ![t] = IF Atomic THEN "send" ELSE "claim"]
           /\ UNCHANGED <<chan, ack, note, slot, srv, job, n, got, runs>>
Claim(t) == /\ pc[t] = "claim" /\ active' = [active EXCEPT ![w[t]] = TRUE] /\ pc' = [pc EXCEPT ![t] = "send"]
            /\ UNCHANGED <<chan, ack, note, slot, srv, w, job, n, got, runs>>
Send(t) == /\ pc[t] = "send" /\ n' = [n EXCEPT ![t] = @ + 1] /\ job' = [job EXCEPT ![t] = <<t, n[t] + 1>>]
           /\ chan' = [chan EXCEPT ![w[t]] = Append(@, <<t, n[t] + 1>>)] /\ pc' = [pc EXCEPT ![t] = IF Ipc THEN "told" ELSE "recv"]
           /\ UNCHANGED <<active, ack, note, slot, srv, w, got, runs>>
Told(t) == /\ pc[t] = "told" /\ Len(note[w[t]]) > 0 /\ note' = [note EXCEPT ![w[t]] = Tail(@)]
           /\ IF Lazy /\ note[w[t]][1] = "error"
              THEN got' = [got EXCEPT ![job[t]] = Append(@, Nothing)] /\ pc' = [pc EXCEPT ![t] = IF n[t] < JobsPer THEN "send" ELSE "look"]
              ELSE got' = got /\ pc' = [pc EXCEPT ![t] = "recv"]
           /\ UNCHANGED <<active, chan, ack, slot, srv, w, job, n, runs>>
Recv(t) == /\ pc[t] = "recv" /\ ack[w[t]] > 0 /\ ack' = [ack EXCEPT ![w[t]] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "take"]
           /\ UNCHANGED <<active, chan, note, slot, srv, w, job, n, got, runs>>
Take(t) == /\ pc[t] = "take" /\ got' = [got EXCEPT ![job[t]] = Append(@, slot[w[t]])] /\ slot' = [slot EXCEPT ![w[t]] = Nothing]
           /\ pc' = [pc EXCEPT ![t] = "free"] /\ UNCHANGED <<active, chan, ack, note, srv, w, job, n, runs>>
Give(t) == /\ pc[t] = "free" /\ active' = [active EXCEPT ![w[t]] = FALSE] /\ pc' = [pc EXCEPT ![t] = "look"]
           /\ UNCHANGED <<chan, ack, note, slot, srv, w, job, n, got, runs>>
(* ---- workers ---- *)
Take1(x) == /\ srv[x] = Nothing /\ Len(chan[x]) > 0 /\ srv' = [srv EXCEPT ![x] = chan[x][1]] /\ chan' = [chan EXCEPT ![x] = Tail(@)]
            /\ slot' = [slot EXCEPT ![x] = Nothing] /\ UNCHANGED <<active, ack, note, pc, w, job, n, got, runs>>
Run(x) == /\ srv[x] # Nothing /\ srv[x][2] # 99 /\ runs' = [runs EXCEPT ![srv[x]] = @ + 1] /\ slot' = [slot EXCEPT ![x] = Outcome(srv[x])]
          /\ note' = IF Ipc THEN [note EXCEPT ![x] = Append(@, IF Fails(srv[x]) THEN "error" ELSE "done")] ELSE note
          /\ srv' = [srv EXCEPT ![x] = <<1, 99>>] /\ UNCHANGED <<active, chan, ack, pc, w, job, n, got>>
Ack(x) == /\ srv[x][2] = 99 /\ ack' = [ack EXCEPT ![x] = @ + 1] /\ srv' = [srv EXCEPT ![x] = Nothing]
          /\ UNCHANGED <<active, chan, note, slot, pc, w, job, n, got, runs>>
Next == (\E t \in Threads : Look(t) \/ Claim(t) \/ Send(t) \/ Told(t) \/ Recv(t) \/ Take(t) \/ Give(t)) \/ (\E x \in Workers : Take1(x) \/ Run(x) \/ Ack(x))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ---- promises ---- *)
InvOwn == \A j \in Jobs : got[j] \in {<<>>, <<Outcome(j)>>}
InvOnce == \A j \in Jobs : runs[j] <= 1
Busy(x) == {t \in Threads : w[t] = x /\ pc[t] \in {"send", "told", "recv", "take", "free"}}
InvFree == \A x \in Workers : Cardinality(Busy(x)) <= 1
InvFlag == \A x \in Workers : Busy(x) # {} => active[x]
Delivered == <>(\A j \in Jobs : Len(got[j]) = 1 /\ runs[j] = 1)
=============================================================================
