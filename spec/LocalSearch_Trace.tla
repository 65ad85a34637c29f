------------------------- MODULE LocalSearch_Trace -------------------------
EXTENDS LocalSearch, TraceBase
(* tr: dir, mode, w (weights), heat, lim, keep, pareto, steps.                                              *)
(* z: cur/curf current content and fitness, best/bestf best so far, hb/hf the content and fitness a restart *)
(*    returns to, nv/nf candidate, g/l iterations without improvement, n iterations, seen: <<content, fit>> *)
LInit(tr) == [cur |-> <<>>, curf |-> <<>>, best |-> <<>>, bestf |-> <<>>, hb |-> <<>>, hf |-> <<>>, nv |-> <<>>, nf |-> <<>>,
              g |-> 0, l |-> 0, n |-> 0, seen |-> {}, acc |-> 0]
Fit(tr, e) == Fitness(tr.mode, tr.w, e.vals)
Geqd(tr, a, b) == ~Better(tr.dir, b, a)     \* not worse
(* flags: improvement of the current solution and of the best; the Pareto variant also moves to incomparable ones *)
LocFlag(tr, z, f) == IF tr.pareto THEN Geqd(tr, f, z.curf) ELSE Better(tr.dir, f, z.curf)
GlobOK(tr, z, e) == tr.pareto \/ e.glob = Better(tr.dir, z.nf, z.bestf)
G1(z, e) == IF e.glob THEN 0 ELSE z.g + 1
L1(z, e) == IF e.loc THEN 0 ELSE z.l + 1
HB(z, e) == IF e.glob THEN z.nv ELSE z.hb
HF(z, e) == IF e.glob THEN z.nf ELSE z.hf
AccOK(tr, z) == IF tr.pareto THEN Geqd(tr, z.nf, z.curf) ELSE Accepts(tr.dir, tr.heat, z.nf, z.curf)
RejOK(tr, z) == IF tr.pareto THEN ~Geqd(tr, z.nf, z.curf) ELSE MayReject(tr.dir, tr.heat, z.nf, z.curf)
LNext(tr, z, e) ==
  CASE e.op = "start" -> LET f == Fit(tr, e) IN
         [z EXCEPT !.cur = e.x, !.curf = f, !.best = e.x, !.bestf = f, !.hb = e.x, !.hf = f, !.g = e.g, !.l = e.l, !.n = 0,
                   !.seen = {<<e.x, f>>}, !.acc = 0]
    [] e.op = "mutate" -> LET f == Fit(tr, e) IN
         [z EXCEPT !.nv = e.out, !.nf = f, !.seen = @ \cup {<<e.out, f>>}, !.n = @ + 1, !.cur = e.inp]
    [] e.op = "step" ->
         [z EXCEPT !.cur = e.out, !.curf = e.outf,
                   !.best = IF Better(tr.dir, z.nf, z.bestf) THEN z.nv ELSE @,
                   !.bestf = IF Better(tr.dir, z.nf, z.bestf) THEN z.nf ELSE @,
                   !.hb = HB(z, e), !.hf = HF(z, e),
                   !.g = IF Due(tr.lim, G1(z, e), L1(z, e)) THEN 0 ELSE G1(z, e),
                   !.l = IF Due(tr.lim, G1(z, e), L1(z, e)) THEN 0 ELSE L1(z, e),
                   !.acc = @ + (IF e.inp = z.nv THEN 1 ELSE 0)]
    [] OTHER -> z
AllFits(z) == {p[2] : p \in z.seen}
LFails(tr, z, e) ==
  CASE e.op = "start" -> {}
    [] e.op = "mutate" -> If(e.inp = z.cur, "ls.current")
    [] e.op = "step" ->
         LET due == Due(tr.lim, G1(z, e), L1(z, e)) IN
         If(e.fit = z.nf, "ls.objective")
         \cup If(e.loc = LocFlag(tr, z, z.nf), "ls.improvement")
         \cup If(GlobOK(tr, z, e), "ls.improvement")
         \cup If(\/ (e.inp = z.nv /\ e.inpf = z.nf /\ AccOK(tr, z))
                 \/ (e.inp = z.cur /\ e.inpf = z.curf /\ RejOK(tr, z)), "ls.accept")
         \cup If(IF due THEN e.out = HB(z, e) /\ e.outf = HF(z, e) ELSE e.out = e.inp /\ e.outf = e.inpf, "ls.restart")
         \cup If(tr.cool = 0 \/ (e.cooled = 1 /\ e.ratio = tr.cool), "ls.cooling")
    [] e.op = "end" ->
         If(z.n = tr.steps, "ls.iterations")
         \cup If(\A k \in DOMAIN e.list : e.list[k].fit = Fitness(tr.mode, tr.w, e.list[k].vals), "ls.true")
         \cup If(\A k \in DOMAIN e.list : <<e.list[k].x, e.list[k].fit>> \in z.seen, "ls.visited")
         \cup If((tr.keep /\ ~tr.pareto) => {<<e.list[k].x, e.list[k].fit>> : k \in DOMAIN e.list} = z.seen, "ls.keeps")
         \cup If(\A f \in AllFits(z) : ~Better(tr.dir, f, e.fit), "ls.best")
         \cup If(e.fit = Fitness(tr.mode, tr.w, e.vals) /\ <<e.x, e.fit>> \in z.seen, "ls.true")
         \cup If(<<e.attr, Fitness(tr.mode, tr.w, e.attrvals)>> \in z.seen /\ \A f \in AllFits(z) : ~Better(tr.dir, f, Fitness(tr.mode, tr.w, e.attrvals)), "ls.best")
         \cup If(tr.pareto => {e.front[k].fit : k \in DOMAIN e.front} = NonDominated(tr.dir, AllFits(z)), "ls.front")
         \cup If(tr.pareto => \A k \in DOMAIN e.front : <<e.front[k].x, e.front[k].fit>> \in z.seen, "ls.visited")
    [] e.op = "rate" -> \* accepted moves among n, each accepted with a probability of p percent: within 8 standard deviations
         LET d == (e.acc * 100 - e.p * e.n) \div 10 IN
         If(d * d <= (64 * e.p * (100 - e.p) * e.n) \div 100, "ls.probability")
    [] OTHER -> {"unknown"}
=============================================================================
