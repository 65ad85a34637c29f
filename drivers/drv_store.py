"""Histories of result stores, Pareto fronts and fitness comparisons."""
import contextlib, io, random
import numpy as np
from common import Driver
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, Solution, Problem, TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage, ParetoFront, result_storage_to_pareto_front
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator

class Sol(Solution):
    def __init__(self, i, var=None): self.i = i; self.var = var
    def copy(self): return Sol(self.i, self.var)
    def change_problem(self, p): pass
class Equal(Sol):
    """Solutions that are compared by content."""
    def __hash__(self): return hash(self.i)
    def __eq__(self, o): return self.i == o.i

class Table(Problem):
    def __init__(self, fit): self.fit = fit
    def evaluate_mobj(self, s): return TupleFitness(np.array(self.fit[s.i]), len(self.fit[s.i]))

MODE = {'max': ModeOptim.MAXIMIZATION, 'min': ModeOptim.MINIMIZATION}
def wrap(v): return v[0] if len(v) == 1 else TupleFitness(np.array(v), len(v))
def unwrap(f): return [int(x) for x in f.vector_fitness] if isinstance(f, TupleFitness) else [int(f)]
def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a)

def fits(r, n, dim):
    style = r.randrange(4)
    hi = [1, 3, 6, 30][style]
    base = [[r.randint(-hi, hi) for _ in range(dim)] for _ in range(n)]
    if r.random() < .3:
        base.sort(reverse=r.random() < .5)
    return {i + 1: base[i] for i in range(n)}

def look(tr, st, r, dim, what=None):
    n = len(st.list_solution_fits)
    pr = lambda p: dict(id=p[0].i, fit=unwrap(p[1]))
    b = st.get_best_solution()
    tr.ev('best', how='get', id=b.i if b is not None else 0, fit=tr.fit[b.i] if b is not None else [])
    b = st.best_solution
    tr.ev('best', how='attr', id=b.i if b is not None else 0, fit=tr.fit[b.i] if b is not None else [])
    if n:
        tr.ev('best', how='fit', **pr(st.get_best_solution_fit()))
        if dim == 1:
            tr.ev('best', how='last', **pr(st.get_last_best_solution()))
            for _ in range(4):
                tr.ev('best', how='random', **pr(st.get_random_best_solution()))
                tr.ev('other', **pr(st.get_random_solution()))
        else:
            tr.ev('other', **pr(st.get_random_solution()))
    tr.ev('list', got=[pr(p) for p in st.list_solution_fits])
    if dim == 1:
        tr.ev('rank', got=[int(x) for x in st.heap])

def store(tr, r, pareto):
    dim = r.choice([2, 2, 3, 1]) if pareto else r.choice([1, 1, 1, 2])
    dir = r.choice(['max', 'min'])
    n = r.randint(1, 9)
    fit = fits(r, n, dim)
    tr.fit = fit
    limit = r.random() < .75
    lim = r.choice([1, 2, 3, 5, 1000])
    tr.d.update(dir=dir, dim=dim, lim=lim if limit else 0)
    C = r.choice([Sol, Equal])
    objs = {i: C(i) for i in fit}
    order = [r.randint(1, n) for _ in range(r.randint(0, 14))]
    cut = r.choice([0, 0, len(order), r.randint(0, len(order))])
    def obj(i): return objs[i] if C is Sol or r.random() < .5 else Equal(i)
    first = order[:cut]
    kw = dict(list_solution_fits=[(obj(i), wrap(fit[i])) for i in first], best_solution=None,
              mode_optim=MODE[dir], limit_store=limit, nb_best_store=lim)
    st = (ParetoFront if pareto else ResultStorage)(**kw)
    tr.ev('new', offers=[dict(id=i, fit=fit[i]) for i in first])
    fresh = True
    for i in order[cut:] + [None]:
        if r.random() < .3 or i is None:
            look(tr, st, r, dim)
        if r.random() < .2 or i is None:
            st.finalize(); tr.ev('final')
            look(tr, st, r, dim)
            if pareto: front(tr, st, dim)
        if i is None: break
        if pareto and r.random() < .3:
            # a point can also be given to the front alone
            st.add_point(objs[i], wrap(fit[i])); tr.ev('point', id=i, fit=fit[i])
            front(tr, st, dim)
        else:
            st.add_solution(obj(i), wrap(fit[i])); tr.ev('add', id=i, fit=fit[i])
    if not pareto and dim > 1 and len(st.list_solution_fits):
        p = result_storage_to_pareto_front(st, r.choice([None, Table(fit)]))
        tr.ev('final'); front(tr, p, dim)

def front(tr, st, dim):
    tr.ev('front', got=[dict(id=p[0].i, fit=unwrap(p[1])) for p in st.paretos], len=st.len_pareto_front())
    if dim > 1 and st.paretos and st.list_solution_fits:
        tr.ev('extremes', got=[dict(id=p[0].i, fit=unwrap(p[1])) for p in st.compute_extreme_points()])

def compare(tr, r):
    """Several stores compared: best of each by objective, and the front of all of them."""
    dir = r.choice(['max', 'min']); dim = r.choice([2, 3])
    n = r.randint(2, 9)
    fit = fits(r, n, dim); tr.fit = fit
    tr.d.update(dir=dir, dim=dim, lim=0)
    parts = [[] for _ in range(r.randint(1, 3))]
    for i in range(1, n + 1): r.choice(parts).append(i)
    parts = [p for p in parts if p]
    objs = {i: Sol(i) for i in fit}
    stores = [ResultStorage([(objs[i], wrap(fit[i])) for i in p], mode_optim=MODE[dir]) for p in parts]
    names = ['s%d' % k for k in range(len(parts))]
    obs = ['o%d' % k for k in range(dim)]
    c = ResultComparator(stores, names, obs, [1] * dim)
    for k, p in enumerate(parts):
        tr.ev('new', offers=[dict(id=i, fit=fit[i]) for i in p])
        for j, o in enumerate(obs):
            b = c.get_best_by_objective_by_result_storage(o)[names[k]]
            tr.ev('bestby', k=j + 1, id=b[0].i, fit=unwrap(b[1]))
    tr.ev('new', offers=[dict(id=i, fit=fit[i]) for p in parts for i in p])
    p = c.generate_super_pareto()
    tr.ev('final'); front(tr, p, dim)

def order(tr, r):
    tr.d.update(dir='max', dim=1, lim=0)
    for _ in range(12):
        dim = r.randint(1, 4)
        a = [r.randint(-2, 2) for _ in range(dim)]
        b = [r.choice([x, r.randint(-2, 2)]) for x in a]
        A, B = TupleFitness(np.array(a), dim), TupleFitness(np.array(b), dim)
        c = r.randint(-2, 3)
        tr.ev('cmp', a=a, b=b, c=c, lt=bool(A < B), gt=bool(A > B), le=bool(A <= B), ge=bool(A >= B), eq=bool(A == B),
              times=unwrap(A * c), dist2=int(round(float(A.distance(B)) ** 2)))

def dedup(tr, r):
    tr.d.update(dir='max', dim=1, lim=0)
    n = r.randint(1, 7)
    k = r.randint(1, 3)
    cont = [[r.randint(0, 1) for _ in range(k)] for _ in range(n)]
    st = ResultStorage([(Sol(i + 1, cont[i]), r.randint(0, 3)) for i in range(n)], mode_optim=MODE['max'])
    quiet(st.remove_duplicate_solutions, 'var')
    tr.ev('dedup', contents=cont, got=[p[0].i for p in st.list_solution_fits])

d = Driver()
random.seed(d.seed)
N = 1500 if d.thorough else 220
for k in range(N):
    d.run('store', k, lambda tr: store(tr, d.rng('store', k), False))
    d.run('pareto', k, lambda tr: store(tr, d.rng('pareto', k), True))
    if k % 4 == 0:
        d.run('compare', k, lambda tr: compare(tr, d.rng('compare', k)))
        d.run('order', k, lambda tr: order(tr, d.rng('order', k)))
        d.run('dedup', k, lambda tr: dedup(tr, d.rng('dedup', k)))
