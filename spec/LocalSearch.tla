---------------------------- MODULE LocalSearch ----------------------------
(* Hill climbing and simulated annealing over solutions with contents.     *)
(* dir "max"/"min"; fitnesses are integers or vectors (see ResultStore).   *)
EXTENDS ResultStore
(* fitness of an evaluation: mode "agg" weighted sum, "single" first weighted component, "multi" the weighted vector *)
RECURSIVE Dot(_, _, _)
Dot(w, v, k) == IF k = 0 THEN 0 ELSE w[k] * v[k] + Dot(w, v, k - 1)
Fitness(mode, w, v) ==
  CASE mode = "agg" -> <<Dot(w, v, Len(w))>>
    [] mode = "single" -> <<w[1] * v[1]>>
    [] OTHER -> [k \in DOMAIN w |-> w[k] * v[k]]
(* what becomes of a candidate of fitness nf when the current solution has fitness cf: accepted?           *)
(* heat: "hill" only improvements; "cold" also ties; "hot" everything; "warm" ties and anything it draws   *)
MayAccept(dir, heat, nf, cf) == heat # "hill" \/ Better(dir, nf, cf)
MayReject(dir, heat, nf, cf) ==
  CASE heat = "hill" -> ~Better(dir, nf, cf)
    [] heat = "cold" -> Better(dir, cf, nf)
    [] heat = "hot" -> FALSE
    [] OTHER -> Better(dir, cf, nf)
ColdAccept(dir, heat, nf, cf) == (heat = "cold") => ~Better(dir, cf, nf)
Accepts(dir, heat, nf, cf) == MayAccept(dir, heat, nf, cf) /\ ColdAccept(dir, heat, nf, cf)
(* restart after more than lim iterations in a row without a new best, or without an improvement (lim < 0: never) *)
Due(lim, g, l) == lim >= 0 /\ (g > lim \/ l > lim)
=============================================================================
