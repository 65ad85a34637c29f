--------------------------- MODULE LocalSearch_MC ---------------------------
(* The search works on mutable solution objects (cells of a heap): a move either builds a new object or    *)
(* changes the current one in place and is undone in place.  The store and the restart handler keep        *)
(* copies.  Whatever the problem and the moves, the objects that are kept still have the fitness they were  *)
(* recorded with, and the best of the store is the best content ever evaluated.                            *)
EXTENDS LocalSearch, TLC
CONSTANTS CONTENTS, VALUES, STEPS
VARIABLES dir, heat, inplace, keep, lim, obj, heap, cur, curf, best, bestf, store, seen, it, g, l
vars == <<dir, heat, inplace, keep, lim, obj, heap, cur, curf, best, bestf, store, seen, it, g, l>>
C == 1..CONTENTS
F(c) == <<obj[c]>>
Init == /\ dir \in {"max", "min"} /\ heat \in {"hill", "cold", "warm"} /\ inplace \in BOOLEAN /\ keep \in BOOLEAN
        /\ lim \in {-1, 0, 1}
        /\ obj \in [C -> VALUES]
        /\ \E c \in C : /\ heap = <<c, c, c>> /\ curf = F(c) /\ bestf = F(c) /\ seen = {c}
                        /\ store = <<[cell |-> 1, fit |-> F(c)]>>
        /\ cur = 2 /\ best = 3 /\ it = 0 /\ g = 0 /\ l = 0
Step(c) ==
  LET old == heap[cur]
      \* the candidate object
      nv == IF inplace THEN cur ELSE Len(heap) + 1
      h1 == IF inplace THEN [heap EXCEPT ![cur] = c] ELSE Append(heap, c)
      nf == F(c)
      loc == Better(dir, nf, curf)
      glob == Better(dir, nf, bestf)
      record == keep \/ glob
      \* a copy is recorded before the move may be undone
      h2 == IF record THEN Append(h1, h1[nv]) ELSE h1
      st == IF record THEN Append(store, [cell |-> Len(h2), fit |-> nf]) ELSE store
  IN \E acc \in BOOLEAN :
     /\ acc => Accepts(dir, heat, nf, curf)
     /\ ~acc => MayReject(dir, heat, nf, curf)
     /\ LET h3 == IF ~acc /\ inplace THEN [h2 EXCEPT ![cur] = old] ELSE h2
            c1 == IF acc THEN nv ELSE cur
            f1 == IF acc THEN nf ELSE curf
            h4 == IF glob THEN Append(h3, h3[nv]) ELSE h3
            b1 == IF glob THEN Len(h4) ELSE best
            bf == IF glob THEN nf ELSE bestf
            g1 == IF glob THEN 0 ELSE g + 1
            l1 == IF loc THEN 0 ELSE l + 1
            due == Due(lim, g1, l1)
        IN /\ heap' = IF due THEN Append(h4, h4[b1]) ELSE h4
           /\ cur' = IF due THEN Len(h4) + 1 ELSE c1
           /\ curf' = IF due THEN bf ELSE f1
           /\ best' = b1 /\ bestf' = bf
           /\ g' = IF due THEN 0 ELSE g1
           /\ l' = IF due THEN 0 ELSE l1
     /\ store' = st
     /\ seen' = seen \cup {c}
     /\ it' = it + 1
     /\ UNCHANGED <<dir, heat, inplace, keep, lim, obj>>
Next == it < STEPS /\ \E c \in C : Step(c)
Spec == Init /\ [][Next]_vars
CurrentTrue == curf = F(heap[cur])
BestTrue == bestf = F(heap[best])
StoreTrue == \A k \in DOMAIN store : store[k].fit = F(heap[store[k].cell])
BestOfAll == /\ \A c \in seen : ~Better(dir, F(c), bestf)
             /\ heap[best] \in seen
             /\ \E k \in DOMAIN store : store[k].fit = bestf
             /\ \A k \in DOMAIN store : ~Better(dir, store[k].fit, bestf)
KeepsAll == keep => {heap[store[k].cell] : k \in DOMAIN store} = seen
HillStaysBest == heat = "hill" => curf = bestf
=============================================================================
