"""Small optimisation problems over plain encodings, used with the real mutations and searches."""
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (Solution, Problem, EncodingRegister, TypeAttribute,
    ObjectiveRegister, ObjectiveHandling, TypeObjective, ModeOptim)
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackModel, KnapsackSolution, Item

class Enc(Solution):
    """A permutation, a list of bits and a list of bounded integers."""
    def __init__(self, perm, bits, ints):
        self.perm, self.bits, self.ints = perm, bits, ints
    def copy(self):
        return Enc(list(self.perm), list(self.bits), list(self.ints))
    def change_problem(self, p): pass
class LazyEnc(Enc):
    """lazy_copy shares the encodings, as several solution classes of the library do."""
    def copy(self):
        return LazyEnc(list(self.perm), list(self.bits), list(self.ints))
    def lazy_copy(self):
        return LazyEnc(self.perm, self.bits, self.ints)

class EncProblem(Problem):
    def __init__(self, r, n, nb, ar, lo=-2, hi=3):
        self.n, self.nb, self.ar = n, nb, ar
        self.wp = [[r.randint(lo, hi) for _ in range(n)] for _ in range(n)]
        self.wb = [[r.randint(lo, hi) for _ in range(2)] for _ in range(max(nb, 1))]
        self.wi = [[r.randint(lo, hi) for _ in range(a + 1)] for a in ar]
    def values(self, x):
        p, b, i = x[:self.n], x[self.n:self.n + self.nb], x[self.n + self.nb:]
        a = sum(self.wp[k][v] for k, v in enumerate(p)) + sum(self.wb[k][v] for k, v in enumerate(b))
        c = sum(self.wi[k][v] for k, v in enumerate(i)) + sum(self.wp[v][k] for k, v in enumerate(p))
        return [a, c]
    def content(self, s):
        return [int(v) for v in s.perm] + [int(v) for v in s.bits] + [int(v) for v in s.ints]
    def evaluate(self, s):
        a, c = self.values(self.content(s))
        return {'a': a, 'c': c}
    def fresh(self, x):
        return self.values(x)
    def satisfy(self, s): return True
    def get_attribute_register(self):
        d = {'perm': {'name': 'perm', 'range': list(range(self.n)), 'n': self.n, 'type': [TypeAttribute.PERMUTATION]},
             'bits': {'name': 'bits', 'n': self.nb, 'type': [TypeAttribute.LIST_BOOLEAN]}}
        if self.ar:
            d['ints'] = {'name': 'ints', 'n': len(self.ar), 'arrities': self.ar, 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY]}
        return EncodingRegister(d)
    def get_solution_type(self): return Enc
    def get_objective_register(self):
        return ObjectiveRegister(ModeOptim.MAXIMIZATION, ObjectiveHandling.AGGREGATE,
                                 {'a': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}, 'c': {'type': TypeObjective.PENALTY, 'default_weight': -1}})
    keys = ['a', 'c']
    def start(self, r, cls=Enc):
        p = list(range(self.n)); r.shuffle(p)
        return cls(p, [r.randint(0, 1) for _ in range(self.nb)], [r.randint(1, a) for a in self.ar])

class Knap:
    """A knapsack with the accessors the drivers need."""
    keys = ['value', 'weight_violation']
    def __init__(self, r, n, force=False):
        idx = list(range(n)) if r.random() < .5 else r.sample(range(1, 3 * n + 1), n)
        self.items = [Item(idx[i], r.randint(1, 9), r.randint(1, 9)) for i in range(n)]
        self.cap = r.randint(1, 5 * n)
        self.model = KnapsackModel(self.items, self.cap, force_recompute_values=force)
        self.n = n
    def content(self, s): return [int(v) for v in s.list_taken]
    def fresh(self, x):
        v = sum(i.value for i, b in zip(self.items, x) if b)
        w = sum(i.weight for i, b in zip(self.items, x) if b)
        return [v, max(0, w - self.cap)]
    def start(self, r, evaluated=True):
        s = KnapsackSolution(problem=self.model, list_taken=[r.randint(0, 1) for _ in range(self.n)])
        if evaluated: self.model.evaluate(s)
        return s

class Rcpsp:
    """A small project: permutation of tasks and modes; evaluated to [makespan, feasible]."""
    def __init__(self, r, n):
        from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import MultiModeRCPSPModel, SingleModeRCPSPModel, RCPSPSolution
        self.S = RCPSPSolution
        multi = r.random() < .7
        self.n = n
        self.ar = [r.randint(1, 3) if multi else 1 for _ in range(n)]
        cap = {'R1': r.randint(2, 4), 'R2': r.randint(2, 4)}
        md = {1: {1: dict(duration=0, R1=0, R2=0)}}
        for i in range(n):
            md[i + 2] = {m + 1: dict(duration=r.randint(1, 4), R1=r.randint(0, 2), R2=r.randint(0, 2)) for m in range(self.ar[i])}
        md[n + 2] = {1: dict(duration=0, R1=0, R2=0)}
        succ = {1: list(range(2, n + 3))}
        for i in range(2, n + 2):
            succ[i] = [j for j in range(i + 1, n + 2) if r.random() < .25] + [n + 2]
        succ[n + 2] = []
        self.args = dict(resources=cap, non_renewable_resources=[], mode_details=md, successors=succ, horizon=60, horizon_multiplier=1)
        self.cls = MultiModeRCPSPModel if multi else SingleModeRCPSPModel
        self.model = self.cls(**self.args)
    keys = ['makespan']
    def obj(self, d): return [int(d['makespan']), int(round(1000 * float(d['mean_resource_reserve'])))]
    def content(self, s): return [int(v) for v in s.rcpsp_permutation] + [int(v) for v in s.rcpsp_modes]
    def fresh(self, x):
        s = self.S(problem=self.cls(**self.args), rcpsp_permutation=list(x[:self.n]), rcpsp_modes=list(x[self.n:]))
        return self.obj(self.model.evaluate(s))
    def start(self, r):
        p = list(range(self.n)); r.shuffle(p)
        return self.S(problem=self.model, rcpsp_permutation=p, rcpsp_modes=[r.randint(1, a) for a in self.ar])
