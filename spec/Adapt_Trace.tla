---------------------------- MODULE Adapt_Trace ----------------------------
EXTENDS Adapt, TraceBase
(* An event is one call through a view.  e.inner and e.outer are the levels of the object called and of its caller; *)
(* e.given, e.got what the caller passed and received; e.seen, e.ret what the object was passed and answered.       *)
AInit(tr) == 0
ANext(tr, z, e) == z
Through(given, hints, seen, S, T) ==
  /\ Len(seen) = Len(given)
  /\ \A i \in 1..Len(given) : seen[i] = Cast(given[i], hints[i], S, T)
AFails(tr, z, e) ==
  CASE e.op = "call" ->
         If(e.times = 1, "cast.once")
         \cup If(Through(e.given, Methods[e.m].args, e.seen, e.outer, e.inner), "cast.args")
         \cup If(e.got = Cast(e.ret, Methods[e.m].ret, e.inner, e.outer), "cast.result")
    [] e.op = "fn" ->
         If(Through(e.given, e.args, e.seen, e.outer, e.inner), "cast.args")
         \cup If(e.got = Cast(e.ret, e.hint, e.inner, e.outer), "cast.result")
    [] e.op = "constraint" ->
         If(e.times = 1 /\ Through(e.given, ConstraintArgs, e.seen, e.outer, e.inner), "cast.constraint")
         \cup If(e.same, "cast.constraint")
    [] OTHER -> {"unknown"}
=============================================================================
