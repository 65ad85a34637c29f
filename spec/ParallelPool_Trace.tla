------------------------ MODULE ParallelPool_Trace ------------------------
(* Launch events are recorded after the call returned and reads before it    *)
(* starts and after it ended, so that a worker is certainly held between a   *)
(* job's launch event and its "reading" event.                               *)
EXTENDS ParallelPool, TraceBase
PInit(tr) == [jobs |-> <<>>, lost |-> {}, pids |-> {}, closed |-> FALSE]
CountIn(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
PFails(tr, z, e) ==
  CASE e.op = "launch" ->
         IF e.bad THEN If(e.w = -1, "pool.refuse")
         ELSE If(e.w >= 0 /\ e.w < tr.n, "pool.launch") \cup (IF e.w >= 0 THEN If(Free(z.jobs, e.w), "pool.busy") \cup If(e.want = -1 \/ e.want = e.w, "pool.worker") ELSE {})
    [] e.op = "reading" -> {}
    [] e.op = "result" -> If(e.val = Outcome(z.jobs[e.j]), "pool.result")
                          \cup If(e.pid = 0 \/ \A p \in z.pids : (p[1] = e.pid) <=> (p[2] = z.jobs[e.j].w), "pool.worker")
    [] e.op = "note" -> If(e.ok = ~z.jobs[e.j].fails, "pool.notice")
    [] e.op = "capacity" -> If(e.n = tr.n, "pool.capacity")
    [] e.op = "closed" -> If(e.alive = 0, "pool.close")
    [] e.op = "runs" ->  (* what the workers executed, against what was handed over *)
         LET pays == {z.jobs[k].pay : k \in DOMAIN z.jobs} \cup SeqToSet(e.q) IN
         If(\A x \in pays : CountIn(e.q, x) = Cardinality({k \in DOMAIN z.jobs : z.jobs[k].pay = x}), "pool.once")
    [] e.op = "direct" -> If(e.val = e.pay, "pool.result")
    [] OTHER -> {"unknown"}
PNext(tr, z, e) ==
  CASE e.op = "launch" /\ ~e.bad /\ e.w >= 0 -> [z EXCEPT !.jobs = Hand(z.jobs, e.w, e.pay, e.ret, e.fails)]
    [] e.op = "launch" /\ ~e.bad -> [z EXCEPT !.jobs = EndRead(Hand(z.jobs, e.w, e.pay, e.ret, e.fails), Len(z.jobs) + 1)]
    [] e.op = "reading" -> [z EXCEPT !.jobs = BeginRead(z.jobs, e.j)]
    [] e.op = "result" -> [z EXCEPT !.jobs = EndRead(z.jobs, e.j), !.pids = IF e.pid = 0 THEN @ ELSE @ \cup {<<e.pid, z.jobs[e.j].w>>}]
    [] e.op = "closed" -> [z EXCEPT !.pids = {}, !.jobs = [k \in DOMAIN z.jobs |-> [z.jobs[k] EXCEPT !.ph = "read"]]]
    [] OTHER -> z
=============================================================================
