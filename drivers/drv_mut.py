"""Chains of moves of every mutation operator: applied, undone, applied again."""
import contextlib, io, random
import numpy as np
from common import Driver
from dosols import Enc, LazyEnc, EncProblem, Knap, Rcpsp
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (PermutationShuffleMutation,
    PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation, BasicPortfolioMutationTrack
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import MutationKnapsack, KnapsackMutationSingleBitFlip
from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

class View:
    """Content, true objective and own objective of the solutions of one problem."""
    def __init__(self, pb):
        self.pb = pb
        self.knap, self.rcpsp = isinstance(pb, Knap), isinstance(pb, Rcpsp)
        self.ar = pb.ar if not self.knap else []
        self.elems = list(range(pb.n)) if not self.knap else []
    def x(self, s):
        if self.knap: return dict(perm=[], bits=self.pb.content(s), ints=[])
        if self.rcpsp: return dict(perm=[int(v) for v in s.rcpsp_permutation], bits=[], ints=[int(v) for v in s.rcpsp_modes])
        return dict(perm=[int(v) for v in s.perm], bits=[int(v) for v in s.bits], ints=[int(v) for v in s.ints])
    def fresh(self, x): return self.pb.fresh(x['perm'] + x['bits'] + x['ints'])
    def model(self): return self.pb.model if self.knap or self.rcpsp else self.pb
    def obj(self, d): return self.pb.obj(d) if self.rcpsp else [int(d[k]) for k in self.pb.keys]
    def own(self, s):
        """The objective the solution object itself is evaluated to (it may remember things)."""
        return self.obj(quiet(self.model().evaluate, s))

def operators(pb, sol, r):
    """(name, operator, part, kind, parameter)"""
    n = getattr(pb, 'n', 0)
    out = []
    if isinstance(pb, Knap):
        if pb.model.force_recompute_values:
            pf = r.choice([.1, .5, 1.])
            return [('bitflip', MutationBitFlip.build(pb.model, sol, probability_flip=pf), 'bits', 'flipall' if pf == 1. else 'flip', 0)]
        return [('kp', MutationKnapsack(pb.model), 'bits', 'flip01', 0), ('kp1', KnapsackMutationSingleBitFlip(pb.model), 'bits', 'flip1', 0)]
    rc = isinstance(pb, Rcpsp)
    model, attr = (pb.model, 'rcpsp_permutation') if rc else (pb, 'perm')
    a = r.choice([attr, None])
    prop = r.choice([.2, .34, .5, 1.])
    sw = r.choice([1, 1, 2, 3, 5])
    if r.random() < .4: # through the build methods
        kw = dict(attribute=attr) if r.random() < .5 else {}
        out += [('shuffle', quiet(PermutationShuffleMutation.build, model, sol, **kw), 'perm', 'shuffle', 0),
                ('partial', quiet(PermutationPartialShuffleMutation.build, model, sol, proportion=prop, **kw), 'perm', 'partial', int(prop * n)),
                ('swap', PermutationSwap.build(model, sol, nb_swap=sw, **kw), 'perm', 'swap', sw)]
        if n >= 2: out.append(('2opt', TwoOptMutation.build(model, sol, **kw), 'perm', '2opt', 0))
        if pb.ar: out.append(('ints', MutationIntegerSpecificArrity.build(model, sol, probability_flip=1.), 'ints', 'ints', 0))
        if rc:
            k = r.randrange(len(out))
            if out[k][0] == 'swap': return [('swap', PermutationMutationRCPSP.build(model, sol, other_mutation=PermutationSwap, nb_swap=sw), 'perm', 'swap', sw)]
            out = [(a, PermutationMutationRCPSP(model, sol, other_mutation=b), c, d, e) for a, b, c, d, e in out]
        return out
    out += [('shuffle', PermutationShuffleMutation(model, sol, a), 'perm', 'shuffle', 0),
            ('partial', quiet(PermutationPartialShuffleMutation, model, sol, a, proportion=prop), 'perm', 'partial', int(prop * n)),
            ('swap', PermutationSwap(model, sol, a, nb_swap=sw), 'perm', 'swap', sw)]
    if n >= 2: out.append(('2opt', TwoOptMutation(model, sol, a), 'perm', '2opt', 0))
    if not rc and pb.nb:
        pf = r.choice([.1, .5, 1.])
        out.append(('flip', MutationBitFlip(pb, r.choice(['bits', None]), probability_flip=pf), 'bits', 'flipall' if pf == 1. else 'flip', 0))
    if pb.ar:
        p = r.choice([.1, .5, 1.])
        out.append(('ints', MutationIntegerSpecificArrity(model, 'rcpsp_modes' if rc else 'ints', pb.ar, probability_flip=p) if r.random() < .5
                    else MutationIntegerSpecificArrity(model, probability_flip=p), 'ints', 'ints', 0))
    if rc:
        out = [(a, PermutationMutationRCPSP(model, sol, other_mutation=b), c, d, e) for a, b, c, d, e in out]
    return out

def chain(tr, r, pb, op, sol, steps, reach):
    name, mu, part, kind, k = op
    v = View(pb)
    tr.d.update(ar=v.ar, elems=v.elems, mut=name)
    cur = sol
    tr.ev('start', x=v.x(cur))
    for _ in range(steps):
        before = v.x(cur)
        ev = r.random() < .5
        if ev: s, m, o = quiet(mu.mutate_and_compute_obj, cur)
        else: (s, m), o = quiet(mu.mutate, cur), None
        after = v.x(s)
        on = [i for i in range(len(after['bits'])) if after['bits'][i] > before['bits'][i]] if name == 'kp' else []
        load = sum(pb.items[i].weight for i, b in enumerate(after['bits']) if b) if on else 0
        look = name == 'kp1' or r.random() < .7
        tr.ev('mutate', before=before, after=after, part=part, kind=kind, k=k, obj=v.obj(o) if ev else [], fresh=v.fresh(after),
              own=v.own(s) if look else v.fresh(after), fits=bool(on), load=load, cap=pb.cap if on else 0)
        cur = s
        if r.random() < .5:
            cur = quiet(m.backtrack_local_move, s)
            x = v.x(cur)
            look = r.random() < .7
            tr.ev('undo', x=x, before=before, own=v.own(cur) if look else [], fresh=v.fresh(x))
            if r.random() < .3:
                cur = quiet(m.apply_local_move, cur)
                tr.ev('redo', x=v.x(cur), after=after)
                if r.random() < .5:
                    cur = quiet(m.backtrack_local_move, cur)
                    x = v.x(cur)
                    tr.ev('undo', x=x, before=before, own=[], fresh=v.fresh(x))
    if reach: tr.ev('reach', part=part)

def problem(r):
    k = r.randrange(10)
    if k < 2:
        pb = Knap(r, r.randint(1, 6), force=k == 1); return pb, pb.start(r, k == 1 or r.random() < .5)
    if k < 5:
        pb = Rcpsp(r, r.randint(1, 5)); return pb, pb.start(r)
    pb = EncProblem(r, r.randint(1, 7), r.choice([0, 1, 4]), r.choice([[], [1], [2, 3, 4]]))
    return pb, pb.start(r, r.choice([Enc, LazyEnc]))

def one(tr, r):
    pb, sol = problem(r)
    op = r.choice(operators(pb, sol, r))
    reach = r.random() < .1 and (op[0] in ('shuffle', 'swap', '2opt', 'flip') or (op[0] == 'partial' and op[4] >= 2) or (op[0] == 'ints' and min(pb.ar) > 1))
    chain(tr, r, pb, op, sol, 150 if reach else r.randint(1, 8), reach)

def portfolio(tr, r):
    """A portfolio applies one of its operators, never one of weight zero."""
    pb = EncProblem(r, r.randint(2, 6), 3, [2, 3])
    sol = pb.start(r, r.choice([Enc, LazyEnc]))
    ops = operators(pb, sol, r)
    keep = r.randrange(len(ops))
    w = [1. if i == keep else 0. for i in range(len(ops))]
    mu = quiet(r.choice([BasicPortfolioMutation, BasicPortfolioMutationTrack]), [o[1] for o in ops], w if r.random() < .5 else np.array(w) * 3)
    o = ops[keep]
    chain(tr, r, pb, (o[0], mu, o[2], o[3], o[4]), sol, 6, False)

d = Driver()
N = 2400 if d.thorough else 420
for k in range(N):
    r = d.rng('mut', k)
    random.seed('%s %s' % (k, d.seed)); np.random.seed(r.randrange(2 ** 31))
    d.run('mut', k, lambda tr: one(tr, r))
    if k % 8 == 0:
        d.run('portfolio', k, lambda tr: portfolio(tr, r))
