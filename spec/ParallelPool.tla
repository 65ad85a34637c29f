---------------------------- MODULE ParallelPool ----------------------------
(* What a caller may rely on: jobs are handed to workers, run once, and their *)
(* own outcome is read back.  jobs is the sequence of all jobs so far:        *)
(*   [w, pay, ret, fails, ph] (pay: the call, ret: what it returns) with ph "run" (handed over), "reading", "read"       *)
EXTENDS Integers, Sequences, FiniteSets
Failed == "None"
Outcome(job) == IF job.fails THEN Failed ELSE job.ret
Holding(jobs, w) == {k \in DOMAIN jobs : jobs[k].w = w /\ jobs[k].ph = "run"}
Free(jobs, w) == Holding(jobs, w) = {}
Hand(jobs, w, pay, ret, fails) == Append(jobs, [w |-> w, pay |-> pay, ret |-> ret, fails |-> fails, ph |-> "run"])
BeginRead(jobs, k) == [jobs EXCEPT ![k].ph = "reading"]
EndRead(jobs, k) == [jobs EXCEPT ![k].ph = "read"]
=============================================================================
