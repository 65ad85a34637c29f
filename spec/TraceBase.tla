----------------------------- MODULE TraceBase -----------------------------
(* Validation of recorded executions against a specification.              *)
(* Each trace is one behaviour of the real code: tr.events is the sequence *)
(* of actions it performed with everything it let an observer see.  The    *)
(* including module says what the specification allows:                    *)
(*   TInit(tr)        the specification state before the first event       *)
(*   TFails(tr,s,e)   names of the clauses that event e breaks in state s  *)
(*   TNext(tr,s,e)    the specification state after e (resynchronised on   *)
(*                    what was observed, so the rest is still examined)    *)
(* Every trace ends with one END line; every broken clause has a REJ line. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TInit(_), TFails(_, _, _), TNext(_, _, _)
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s
tvars == <<tid, l, s>>
TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 0
             /\ s = TInit(Traces[tid])
TraceNext ==
  LET tr == Traces[tid]
      n  == Len(tr.events)
  IN \/ /\ l < n
        /\ LET e == tr.events[l + 1] IN
             IF e.op = "exc"
             THEN /\ PrintT("REJ " \o ToString(tid) \o " " \o ToString(l + 1) \o " exception")
                  /\ s' = s
             ELSE LET f == TFails(tr, s, e) IN
                  /\ \A c \in f : PrintT("REJ " \o ToString(tid) \o " " \o ToString(l + 1) \o " " \o c)
                  /\ s' = TNext(tr, s, e)
        /\ l' = l + 1
        /\ UNCHANGED tid
     \/ /\ l = n
        /\ PrintT("END " \o ToString(tid))
        /\ l' = n + 1
        /\ UNCHANGED <<tid, s>>
TraceView == <<tid, l>>
(* helpers shared by the trace modules *)
If(c, name) == IF c THEN {} ELSE {name}
SeqToSet(q) == {q[i] : i \in DOMAIN q}
=============================================================================
