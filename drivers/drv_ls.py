"""Runs of the local searches over observed problems, moves, restarts and temperatures."""
import contextlib, io, math, random
import numpy as np
from common import Driver
from dosols import Enc, LazyEnc, EncProblem, Knap
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ParamsObjectiveFunction, ObjectiveHandling, ModeOptim, TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import Mutation, LocalMove, LocalMoveDefault
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, RestartHandlerLimit, ModeMutation
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber, HillClimberPareto
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor, TemperatureScheduling
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import (PermutationShuffleMutation,
    PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation)
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import MutationBitFlip
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import MutationIntegerSpecificArrity
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import MutationKnapsack, KnapsackMutationSingleBitFlip

MODE = {'max': ModeOptim.MAXIMIZATION, 'min': ModeOptim.MINIMIZATION}
HANDLE = {'agg': ObjectiveHandling.AGGREGATE, 'single': ObjectiveHandling.SINGLE, 'multi': ObjectiveHandling.MULTI_OBJ}
def unwrap(f): return [int(x) for x in f.vector_fitness] if isinstance(f, TupleFitness) else [int(f)]

class Pick(Mutation):
    """Moves to a neighbour: a new object or the same one changed in place."""
    def __init__(self, pb, r, inplace): self.pb, self.r, self.inplace = pb, r, inplace
    def mutate(self, s):
        which = self.r.choice(['perm', 'bits', 'ints'] if self.pb.ar and self.pb.nb else ['perm'])
        t = s if self.inplace else s.copy()
        old = list(getattr(s, which)); new = list(old)
        if which == 'perm':
            i, j = self.r.randrange(len(new)), self.r.randrange(len(new)); new[i], new[j] = new[j], new[i]
        elif which == 'bits':
            i = self.r.randrange(len(new)); new[i] = 1 - new[i]
        else:
            i = self.r.randrange(len(new)); new[i] = self.r.randint(1, self.pb.ar[i])
        getattr(t, which)[:] = new
        if not self.inplace: return t, LocalMoveDefault(s, t)
        class Back(LocalMove):
            def backtrack_local_move(self, x):
                getattr(x, which)[:] = old
                return x
        return t, Back()
    def mutate_and_compute_obj(self, s):
        t, m = self.mutate(s)
        return t, m, self.pb.evaluate(t)

class Spy(Mutation):
    def __init__(self, pb, inner, tr): self.pb, self.inner, self.tr = pb, inner, tr
    def note(self, inp, out):
        x = self.pb.content(out)
        self.tr.ev('mutate', inp=inp, out=x, vals=self.pb.fresh(x))
    def mutate(self, s):
        inp = self.pb.content(s)
        t, m = self.inner.mutate(s)
        self.note(inp, t)
        return t, m
    def mutate_and_compute_obj(self, s):
        inp = self.pb.content(s)
        t, m, o = self.inner.mutate_and_compute_obj(s)
        self.note(inp, t)
        return t, m, o

def handler(base, pb, tr, args, temp):
    class H(base):
        def update(self, nv, fitness, improved_global, improved_local):
            self.u = (unwrap(fitness), bool(improved_global), bool(improved_local))
            super().update(nv, fitness, improved_global, improved_local)
        def restart(self, cur_solution, cur_objective):
            inp, inpf = pb.content(cur_solution), unwrap(cur_objective)
            s, f = super().restart(cur_solution, cur_objective)
            c, ratio = temp() if temp else (0, 0)
            tr.ev('step', fit=self.u[0], glob=self.u[1], loc=self.u[2], inp=inp, inpf=inpf, out=pb.content(s), outf=unwrap(f), cooled=c, ratio=ratio)
            return s, f
    return H(*args)

def mutation(pb, r, sol):
    k = r.randrange(8)
    if isinstance(pb, Knap):
        return r.choice([MutationKnapsack, KnapsackMutationSingleBitFlip])(pb.model)
    if k == 0: return PermutationShuffleMutation(pb, sol, 'perm')
    if k == 1: return PermutationPartialShuffleMutation(pb, sol, 'perm', proportion=r.choice([.3, .6, 1.]))
    if k == 2: return PermutationSwap(pb, sol, 'perm', nb_swap=1)
    if k == 3: return TwoOptMutation(pb, sol, 'perm')
    if k == 4 and pb.nb: return MutationBitFlip(pb, 'bits', probability_flip=r.choice([.2, .6]))
    if k == 5 and pb.ar: return MutationIntegerSpecificArrity(pb, 'ints', pb.ar, probability_flip=r.choice([.3, .7]))
    return Pick(pb, r, r.random() < .7)

def run(tr, r, kind, d):
    if kind != 'pareto' and r.random() < .25:
        pb = Knap(r, r.randint(2, 6)); ev = pb.model
    else:
        hi = r.choice([1, 3, 8])
        pb = EncProblem(r, r.randint(3, 6), r.choice([0, 3]), r.choice([[], [2, 3]]), -hi, hi); ev = pb
    dir = r.choice(['max', 'min'])
    mode = r.choice(['agg', 'agg', 'single', 'multi']) if kind == 'hill' else 'multi' if kind == 'pareto' and r.random() < .9 else r.choice(['agg', 'single'])
    w = [r.choice([1, 2, -1, 3]), r.choice([1, -1, 2, -2])]
    params = ParamsObjectiveFunction(HANDLE[mode], pb.keys, w, MODE[dir])
    lim = r.choice([-1, 0, 1, 3, 7])
    keep = r.random() < .5
    steps = r.choice([0, 1, 5, 14, 40])
    sol = pb.start(r) if isinstance(pb, Knap) else pb.start(r, r.choice([Enc, LazyEnc]))
    mm = r.choice([ModeMutation.MUTATE, ModeMutation.MUTATE_AND_EVALUATE])
    heat, cool, temp, th = 'hill', 0, None, None
    if kind == 'sa':
        heat = r.choice(['hot', 'cold', 'warm'])
        cool = r.choice([1000, 500]) if heat != 'warm' else r.choice([900, 500, 100])
        t0 = {'hot': 1e60, 'cold': 1e-9, 'warm': r.choice([1., 5., 1e-300])}[heat]
        class T(TemperatureSchedulingFactor):
            calls = 0; before = None
            def next_temperature(self):
                self.before = self.temperature; self.calls += 1
                return super().next_temperature()
        th = T(t0, None, cool / 1000)
        def temp():
            c = th.calls; th.calls = 0
            small = th.before is not None and th.before < 1e-290
            return c, cool if small else int(round(1000 * th.temperature / th.before)) if th.before else 0
    tr.d.update(dir=dir, mode=mode, w=w, heat=heat, lim=lim, keep=keep, pareto=kind == 'pareto', steps=steps, cool=cool, mut='')
    rh = handler(RestartHandler, pb, tr, (), temp) if lim < 0 else handler(RestartHandlerLimit, pb, tr, (lim, sol, 0), temp)
    runs = 1 if r.random() < .8 else 2
    mu = mutation(pb, r, sol); tr.d['mut'] = type(mu).__name__
    spy = Spy(pb, mu, tr)
    kw = dict(evaluator=ev, mutator=spy, restart_handler=rh, mode_mutation=mm, params_objective_function=params, store_solution=keep)
    ls = {'hill': HillClimber, 'pareto': HillClimberPareto, 'sa': SimulatedAnnealing}[kind](**kw, **(dict(temperature_handler=th) if th else {}))
    for _ in range(runs):
        x = pb.content(sol)
        tr.ev('start', x=x, vals=pb.fresh(x), g=rh.nb_iteration_no_global_improve, l=rh.nb_iteration_no_local_improve)
        with contextlib.redirect_stdout(io.StringIO()):
            st = ls.solve(sol, steps, **(dict(update_iteration_pareto=r.choice([1, 5, 1000])) if kind == 'pareto' else {}))
        pr = lambda p: (lambda x: dict(x=x, vals=pb.fresh(x), fit=unwrap(p[1])))(pb.content(p[0]))
        b = pr(st.get_best_solution_fit())
        a = pb.content(st.best_solution)
        tr.ev('end', list=[pr(p) for p in st.list_solution_fits], attr=a, attrvals=pb.fresh(a),
              front=[pr(p) for p in st.paretos] if kind == 'pareto' else [], **b)
        sol = pb.start(r) if isinstance(pb, Knap) else pb.start(r, r.choice([Enc, LazyEnc]))

class Pair(EncProblem):
    """Two contents, one worse by one than the other."""
    def __init__(self, sign): self.sign = sign; self.n = 0
    def content(self, s): return [int(v) for v in s.bits]
    def evaluate(self, s): return {'a': -self.sign * s.bits[0], 'c': 0}
def rate(tr, r, p):
    dir = r.choice(['max', 'min'])
    tr.d.update(dir=dir, mode='agg', w=[1, 1], heat='warm', lim=-1, keep=False, pareto=False, steps=0, cool=0)
    pb = Pair(1 if dir == 'max' else -1)
    acc = [0]
    class Worse(Mutation):
        def mutate(self, s):
            t = Enc([], [s.bits[0] + 1], [])
            return t, LocalMoveDefault(s, t)
    class T(TemperatureScheduling):
        temperature = 1 / math.log(100 / p)
        def next_temperature(self): return self.temperature
    n = 1000
    ls = SimulatedAnnealing(pb, Worse(), RestartHandler(), T(), ModeMutation.MUTATE,
                            ParamsObjectiveFunction(ObjectiveHandling.AGGREGATE, ['a', 'c'], [1, 1], MODE[dir]), store_solution=True)
    with contextlib.redirect_stdout(io.StringIO()):
        st = ls.solve(Enc([], [0], []), n)
    # every accepted move makes the current solution worse by one: the last candidate tells how many were accepted
    tr.ev('rate', p=p, n=n, acc=max(s.bits[0] for s, _ in st.list_solution_fits))

d = Driver()
N = 900 if d.thorough else 170
for kind in ('hill', 'sa', 'pareto'):
    for k in range(N if kind != 'pareto' else N // 2):
        r = d.rng(kind, k)
        random.seed('%s %s %s' % (kind, k, d.seed)); np.random.seed(r.randrange(2 ** 31))
        d.run(kind, k, lambda tr: run(tr, r, kind, d))
random.seed(d.seed); np.random.seed(d.seed)
for p in (10, 50, 90):
    for k in range(2):
        d.run('rate', '%d-%d' % (p, k), lambda tr: rate(tr, d.rng('rate', p, k), p))
