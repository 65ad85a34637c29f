------------------------------ MODULE Adapt_MC ------------------------------
(* Every small piece of data, every pair (and triple) of levels: a view keeps the content, wraps it as its level prescribes, *)
(* can be undone, and going through an intermediate level changes nothing.                                                  *)
EXTENDS Adapt, TLC
CONSTANTS Atoms, Width
Levels == [multi : BOOLEAN, par : BOOLEAN, hist : BOOLEAN]
Tup(S, n) == UNION {[1..k -> S] : k \in 1..n}
RECURSIVE Gen(_, _)
Keys == <<"agent", "p", "q">>
Named(q) == [i \in 1..Len(q) |-> Item(Keys[i], q[i])]
Gen(h, L) ==
  LET k == Container(h, L)
      S == IF h.sub = <<>> THEN {} ELSE Gen(h.sub[1], L)
  IN CASE k = "leaf" \/ k = "space" -> {Node("atom", a, <<>>) : a \in Atoms}
       [] k = "bare" -> S
       [] k = "opt" -> S \cup {Node("none", "", <<>>)}
       [] k = "dict" -> {Node("dict", "", Named(q)) : q \in Tup(S, Width)}
       [] k = "dist" -> {Node("dist", "", [i \in 1..Len(q) |-> Item("0.5", q[i])]) : q \in Tup(S, Width)}
       [] k = "outcome" -> {Node("eout", "term", <<x, y, z>>) : x \in Gen(h.sub[1], L), y \in {CHOOSE v \in Gen(h.sub[2], L) : TRUE}, z \in {CHOOSE v \in Gen(h.sub[3], L) : TRUE}}
       [] OTHER -> {Node(k, "", q) : q \in Tup(S, Width)}
VARIABLES m, pos, A, B, x
Init == /\ m \in DOMAIN Methods
        /\ pos \in 0..Len(Methods[m].args)
        /\ A \in Levels /\ B \in Levels
        /\ x \in Gen(IF pos = 0 THEN Methods[m].ret ELSE Methods[m].args[pos], A)
Next == UNCHANGED <<m, pos, A, B, x>>
Hint == IF pos = 0 THEN Methods[m].ret ELSE Methods[m].args[pos]
Keeps ==
  Castable(x, Hint, A, B) =>
    LET y == Cast(x, Hint, A, B) IN
    /\ Conforms(y, Hint, B)
    /\ Leaves(y, Hint, B) = Leaves(x, Hint, A)
    /\ Castable(y, Hint, B, A)
    /\ (A.multi /\ ~B.multi => Leaves(Cast(y, Hint, B, A), Hint, A) = Leaves(x, Hint, A))
    /\ (~(A.multi /\ ~B.multi) => Cast(y, Hint, B, A) = x)
    /\ \A C \in Levels : Castable(x, Hint, A, C) /\ Castable(y, Hint, B, C) /\ ~(A.multi /\ ~B.multi /\ C.multi)
                           => Cast(y, Hint, B, C) = Cast(x, Hint, A, C)
Same == A = B => Castable(x, Hint, A, B) /\ Cast(x, Hint, A, B) = x
Typed == Conforms(x, Hint, A)
=============================================================================
