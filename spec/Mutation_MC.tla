---------------------------- MODULE Mutation_MC ----------------------------
(* A search applies moves to one shared encoding and undoes some of them.  A move is a list of swaps or of *)
(* reversals, undone by replaying it backwards; whatever the history, undoing the last move gives back the *)
(* encoding it was applied to, and the characterisations of Mutation.tla agree with the moves themselves.  *)
EXTENDS Mutation, TLC
CONSTANTS N, KMAX, STEPS
VARIABLES p, prev, move, it
vars == <<p, prev, move, it>>
Pos == 1..N
Pairs == {<<i, j>> : i \in Pos, j \in Pos}
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(kind, q, mv, k) == IF k > Len(mv) THEN q
  ELSE ApplyAll(kind, IF kind = "swap" THEN Swap(q, mv[k][1], mv[k][2]) ELSE Reverse2(q, mv[k][1], mv[k][2]), mv, k + 1)
RECURSIVE UndoAll(_, _, _, _)
UndoAll(kind, q, mv, k) == IF k = 0 THEN q
  ELSE UndoAll(kind, IF kind = "swap" THEN Swap(q, mv[k][1], mv[k][2]) ELSE Reverse2(q, mv[k][1], mv[k][2]), mv, k - 1)
None == [kind |-> "none", l |-> <<>>]
Init == p = [k \in Pos |-> k - 1] /\ prev = p /\ move = None /\ it = 0
Do == \E kind \in {"swap", "2opt"}, n \in 1..KMAX : \E mv \in [1..n -> Pairs] :
        /\ (kind = "2opt") => \A k \in 1..n : mv[k][1] < mv[k][2]
        /\ p' = ApplyAll(kind, p, mv, 1) /\ prev' = p /\ move' = [kind |-> kind, l |-> mv]
Undo == /\ move.kind # "none" /\ p' = UndoAll(move.kind, p, move.l, Len(move.l))
        /\ prev' = prev /\ move' = None
Next == it < STEPS /\ it' = it + 1 /\ (Do \/ Undo)
Spec == Init /\ [][Next]_vars
WellFormed == IsPerm(p)
KindHolds == move.kind # "none" =>
  /\ (move.kind = "swap") => KindOK("swap", Len(move.l), prev, p)
  /\ (move.kind = "2opt" /\ Len(move.l) = 1) => KindOK("2opt", 1, prev, p)
  /\ KindOK("partial", 2 * Len(move.l), prev, p) \/ move.kind = "2opt"
UndoRestores == move.kind # "none" => UndoAll(move.kind, p, move.l, Len(move.l)) = prev
AfterUndo == move.kind = "none" => p = prev
=============================================================================
