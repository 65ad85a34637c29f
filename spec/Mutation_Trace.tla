--------------------------- MODULE Mutation_Trace ---------------------------
EXTENDS Mutation, TraceBase
(* A solution's content x = [perm, bits, ints] (parts a problem does not have are empty; perm need not be 0..n-1 there); *)
(* tr.ar bounds of the integers, tr.elems the elements of the permutation, tr.values: objective of a content             *)
MInit(tr) == [x |-> <<>>, touched |-> {}]
Part(x, w) == IF w = "perm" THEN x.perm ELSE IF w = "bits" THEN x.bits ELSE x.ints
Others(w) == {"perm", "bits", "ints"} \ {w}
WF(tr, x) == SameElements(x.perm, tr.elems) /\ IsBits(x.bits) /\ IsInts(x.ints, tr.ar)
MNext(tr, z, e) ==
  CASE e.op = "start" -> [x |-> e.x, touched |-> {}]
    [] e.op = "mutate" -> [x |-> e.after, touched |-> z.touched \cup Changed(Part(e.before, e.part), Part(e.after, e.part))]
    [] e.op = "undo" -> [z EXCEPT !.x = e.x]
    [] e.op = "redo" -> [z EXCEPT !.x = e.x]
    [] OTHER -> z
MFails(tr, z, e) ==
  CASE e.op = "start" -> {}
    [] e.op = "mutate" ->
         If(e.before = z.x, "mut.input")
         \cup If(WF(tr, e.after), "mut.wellformed")
         \cup If(KindOK(e.kind, e.k, Part(e.before, e.part), Part(e.after, e.part)), "mut.kind")
         \cup If(\A w \in Others(e.part) : Part(e.before, w) = Part(e.after, w), "mut.others")
         \cup If(e.obj = <<>> \/ e.obj = e.fresh, "mut.objective")
         \cup If(e.own = e.fresh, "mut.coherent")
         \cup If(~e.fits \/ e.load <= e.cap, "mut.fits")
    [] e.op = "undo" -> \* back to the encoding before the move
         If(e.x = e.before, "mut.undo")
         \cup If(e.own = <<>> \/ e.own = e.fresh, "mut.coherent")
    [] e.op = "redo" -> If(e.x = e.after, "mut.redo")
    [] e.op = "reach" -> \* after many moves every position has changed at least once
         If(Len(Part(z.x, e.part)) < 2 \/ z.touched = DOMAIN Part(z.x, e.part), "mut.reach")
    [] OTHER -> {"unknown"}
=============================================================================
