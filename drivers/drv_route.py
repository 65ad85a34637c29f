"""Tours and vehicle routes: worth, moves, searches, greedy plans, tools, parsers and OR-Tools solvers."""
import contextlib, io, os, random, tempfile
from common import Driver
import numpy as np
from skdecide.builders.discrete_optimization.tsp.tsp_model import TSPModel, TSPModel2D, Point2D, SolutionTSP, compute_length as tour_length
from skdecide.builders.discrete_optimization.tsp import common_tools_tsp as TT
from skdecide.builders.discrete_optimization.tsp.tsp_parser import parse_file as parse_tsp
from skdecide.builders.discrete_optimization.tsp.mutation.mutation_tsp import Mutation2Opt, Mutation2OptIntersection, MutationSwapTSP, find_intersection
from skdecide.builders.discrete_optimization.tsp.solver.solver_ortools import TSP_ORtools
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_catalog import get_available_mutations
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import PermutationShuffleMutation, PermutationPartialShuffleMutation, PermutationSwap, TwoOptMutation
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import BasicPortfolioMutation
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import RestartHandler, RestartHandlerLimit, ModeMutation
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import HillClimber
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import SimulatedAnnealing, TemperatureSchedulingFactor
from skdecide.builders.discrete_optimization.vrp import vrp_model as VM
from skdecide.builders.discrete_optimization.vrp.vrp_model import VrpProblem, VrpProblem2D, VrpSolution, Customer2D, BasicCustomer
from skdecide.builders.discrete_optimization.vrp import vrp_toolbox as VT
from skdecide.builders.discrete_optimization.vrp.solver.greedy_vrp import GreedyVRPSolver
from skdecide.builders.discrete_optimization.vrp.solver.solver_ortools import VrpORToolsSolver

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def ints(q): return [int(x) for x in q]
def up(q): return [int(x) + 1 for x in q]

class Unit:
    """Distances are reported as multiples of the unit of the instance."""
    def __init__(self, sc): self.sc = sc
    def __call__(self, x):
        f = float(x) / self.sc
        return int(f) if abs(f) < 10**8 and f == int(f) else -777777
    def all(self, q): return [self(x) for x in q]

# points with whole distances: a rectangle grid and a line with two points beside it
RECT = [(0, 0), (3, 0), (0, 4), (3, 4)]
CROSS = [(x, 0) for x in (-35, -16, -9, -5, 0, 5, 9, 16, 35)] + [(0, 12), (0, -12)]
def points(r, n):
    k = r.random()
    if k < .45 and n <= 11: pt = r.sample(CROSS, n)
    elif k < .55 and n <= 4: pt = r.sample(RECT, n)
    elif k < .75: pt = [(r.randint(-9, 9), 0) for _ in range(n)]
    else: pt = [(3 * t, 4 * t) for t in (r.randint(-5, 5) for _ in range(n))]
    dx, dy = r.choice([(0, 0), (0, 0), (r.randint(-20, 20), r.randint(-20, 20))])
    if r.random() < .3: pt = [(y, x) for x, y in pt]
    return [(x + dx, y + dy) for x, y in pt]
def dist(pt):
    out = [[0] * len(pt) for _ in pt]
    for i, a in enumerate(pt):
        for j, b in enumerate(pt):
            q = (a[0] - b[0])**2 + (a[1] - b[1])**2; out[i][j] = round(q**.5); assert out[i][j]**2 == q
    return out
def crossing_points(r, n): return [(r.randint(0, 6), r.randint(0, 6)) for _ in range(n)]
def manhattan(pt): return [[abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in pt] for a in pt]

class MatrixTSP(TSPModel):
    """Distances given by a table."""
    def __init__(self, m, *a):
        self.m = m; super().__init__(list(range(len(m))), len(m), *a)
    def evaluate_function_indexes(self, i, j): return self.m[i][j]
    def evaluate_function(self, s):
        q = [self.start_index] + list(s.permutation) + [self.end_index]
        l = [self.m[a][b] for a, b in zip(q, q[1:])]
        return l, sum(l)

def tinst(r, big, n=None, plane=False, lo=4):
    n = n or r.randint(lo, 8 if big else 7)
    a = r.randrange(n); b = a if r.random() < .5 else r.randrange(n)
    sc = r.choice([1, 1, 2, .25, .0625])
    if plane or r.random() < .7:
        pt = points(r, n); d = dist(pt)
    else:
        pt = []; d = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i): d[i][j] = d[j][i] = r.randint(0, 9)
    return dict(n=n, d=d, pt=[list(p) for p in pt], m=manhattan(pt), a=a + 1, b=b + 1), sc
def tmodel(I, sc, numba):
    if not I['pt']: return MatrixTSP([[sc * x for x in row] for row in I['d']], I['a'] - 1, I['b'] - 1)
    return TSPModel2D([Point2D(sc * x, sc * y) for x, y in I['pt']], I['n'], I['a'] - 1, I['b'] - 1, use_numba=numba)
def inner(I): return [i for i in range(I['n']) if i + 1 not in (I['a'], I['b'])]

def show(tr, u, m, s, keep):
    d = m.evaluate(s)
    tr.ev('tour', x=up(s.permutation), ranks=ints(s.permutation_from0), len=u(s.length), legs=u.all(s.lengths), obj=u(d['length']), ok=bool(m.satisfy(s)),
          a=int(s.start_index) + 1, b=int(s.end_index) + 1, keep=up(keep))

def tour(tr, r, big):
    I, sc = tinst(r, big, lo=3); tr.d['I'] = I; u = Unit(sc)
    while len(inner(I)) < 1: I, sc = tinst(r, big, lo=3); tr.d['I'] = I; u = Unit(sc)
    m = tmodel(I, sc, r.random() < .4)
    w = inner(I); k = len(w)
    s = m.get_dummy_solution(); show(tr, u, m, s, w)
    tr.ev('matrix', d=[u.all(x) for x in quiet(TT.build_matrice_distance, m.node_count, m.list_points, m.evaluate_function_indexes)])
    if I['pt']: tr.ev('matrix', d=[u.all(x) for x in quiet(TT.build_matrice_distance, m.node_count, m.list_points)])
    for _ in range(6 if big else 4):
        p = r.sample(w, k)
        arr = np.array if r.random() < .3 else list
        how = r.choice(['perm', 'rank', 'both'])
        if how == 'perm': s = SolutionTSP(problem=m, permutation=arr(p))
        else:
            rk = [w.index(i) for i in p]
            s = SolutionTSP(problem=m, permutation_from0=arr(rk)) if how == 'rank' else SolutionTSP(problem=m, start_index=I['a'] - 1, end_index=I['b'] - 1, permutation=arr(p), permutation_from0=rk)
        show(tr, u, m, s, p)
        c = r.choice([s.copy, s.lazy_copy])(); show(tr, u, m, c, p)
        q = r.sample(w, k)                                    # one of the encodings is replaced
        if r.random() < .5: c.permutation = list(q)
        else: c.permutation_from0 = [w.index(i) for i in q]
        c2 = c.copy() if r.random() < .5 else c
        show(tr, u, m, c2, q)
        show(tr, u, m, s, p)
        c = s.copy(); c.permutation[0] = c.permutation[-1]    # the copy is the caller's own
        show(tr, u, m, s, p)
        rk = [w.index(i) for i in p]
        tr.ev('code', x=up(p), obj=u(m.evaluate_from_encoding(arr(p), 'permutation')['length']))
        tr.ev('code', x=up(p), obj=u(m.evaluate_from_encoding(rk, 'permutation_from0')['length']))
        tr.ev('recode', x=up(p), r=ints(m.convert_original_perm_to_perm_from0(p)), y=up(m.convert_perm_from0_to_original_perm(m.convert_original_perm_to_perm_from0(p))))
    p = r.sample(w, k); p[0] = r.choice(w)                    # some node may be visited twice
    show(tr, u, m, SolutionTSP(problem=m, permutation=list(p)), p)
    p = r.sample(w, k)
    show(tr, u, m, SolutionTSP(problem=m, start_index=r.randrange(I['n']), end_index=r.randrange(I['n']), permutation=list(p)), p)
    g = m.get_attribute_register().dict_attribute_to_type
    assert sorted(g['permutation']['range']) == w and g['permutation']['n'] == k and list(g['permutation_from0']['range']) == list(range(k)) and g['permutation_from0']['n'] == k
    s = SolutionTSP(problem=m, permutation=list(p))
    I2, sc2 = tinst(r, big, n=I['n'], plane=bool(I['pt']))
    I2['a'], I2['b'] = I['a'], I['b']
    m2 = tmodel(I2, sc2, r.random() < .3)
    s.change_problem(m2)
    tr.ev('problem', I=I2)
    assert s.problem is m2
    u2 = Unit(sc2)
    tr.ev('tour', x=up(s.permutation), ranks=ints(s.permutation_from0), len=u2(s.length), legs=u2.all(s.lengths), obj=u2(s.length), ok=bool(m2.satisfy(s)), a=int(s.start_index) + 1, b=int(s.end_index) + 1, keep=up(p))
    show(tr, u2, m2, s, p)

def mutations(r, m, s, plane):
    a = r.choice(['permutation', 'permutation_from0', None])
    nb = r.choice([None, 1, 2, 200])
    full = r.random() < .4; impr = r.random() < .4
    kw = {} if nb is None and r.random() < .5 else dict(nb_test=nb)
    out = [('2opt', Mutation2Opt(m, test_all=full, return_only_improvement=impr, **kw) if r.random() < .5 else Mutation2Opt.build(m, s, test_all=full, return_only_improvement=impr, **kw), full, impr),
           ('swap', MutationSwapTSP(m) if r.random() < .5 else MutationSwapTSP.build(m, s), False, False),
           ('other', r.choice([lambda: PermutationShuffleMutation(m, s, a), lambda: quiet(PermutationPartialShuffleMutation, m, s, a, .6), lambda: PermutationSwap(m, s, a, r.choice([1, 2])), lambda: TwoOptMutation(m, s, a)])(), False, False)]
    if plane:
        ci = r.random() < .4
        out.append(('cross', Mutation2OptIntersection(m, return_only_improvement=ci) if r.random() < .5 else Mutation2OptIntersection.build(m, s, return_only_improvement=ci), False, ci))
    return out

def moves(tr, r, big):
    I, sc = tinst(r, big)
    while len(inner(I)) < 2: I, sc = tinst(r, big)
    tr.d['I'] = I; u = Unit(sc)
    m = tmodel(I, sc, r.random() < .3)
    s = SolutionTSP(problem=m, permutation=(np.array if r.random() < .15 else list)(r.sample(inner(I), len(inner(I)))))
    arr = not isinstance(s.permutation, list)
    for _ in range(14 if big else 9):
        name, mu, full, impr = r.choice([q for q in mutations(r, m, s, bool(I['pt'])) if not arr or q[0] in ('2opt', 'cross')])
        x = up(s.permutation)
        if r.random() < .6:
            n, move, o = mu.mutate_and_compute_obj(s); o = u(o['length'])
        else:
            n, move = mu.mutate(s); o = None
        full_o = m.evaluate(n) if name == 'other' else None
        y, l, g, rk = up(n.permutation), u(n.length), u.all(n.lengths), ints(n.permutation_from0)
        b = move.backtrack_local_move(n)
        back = dict(back=up(b.permutation))
        if b.lengths is None or name == 'other': m.evaluate(b)
        back.update(blen=u(b.length), blegs=u.all(b.lengths))
        tr.ev('move', mut=name, x=x, y=y, len=l, legs=g, ranks=rk, obj=l if o is None else o, all=full, impr=impr, **back)
        s = b
        if r.random() < .7:
            s = move.apply_local_move(b) if name != 'other' or r.random() < .5 else b
            if isinstance(s.permutation, list): arr = False
        if r.random() < .2: s = s.copy(); arr = False

def crossings(tr, r, big):
    n = r.randint(5, 9 if big else 7)
    pt = crossing_points(r, n)
    a = r.randrange(n); b = a if r.random() < .5 else r.randrange(n)
    I = dict(n=n, d=[], pt=[list(p) for p in pt], m=[], a=a + 1, b=b + 1); tr.d['I'] = I
    m = TSPModel2D([Point2D(x, y) for x, y in pt], n, a, b, use_numba=False)
    for _ in range(5):
        s = SolutionTSP(problem=m, permutation=r.sample(inner(I), len(inner(I))))
        full = r.random() < .6
        c = find_intersection(s, m.list_points, test_all=full, **({} if full or r.random() < .5 else dict(nb_tests=r.choice([1, 3, 100]))))
        tr.ev('crossings', x=up(s.permutation), c=[ints(q) for q in c], full=full or len(s.permutation) <= 0)

def search(tr, r, big):
    I, sc = tinst(r, big)
    while len(inner(I)) < 2: I, sc = tinst(r, big)
    tr.d['I'] = I; u = Unit(sc)
    m = tmodel(I, sc, r.random() < .3)
    s = SolutionTSP(problem=m, permutation=r.sample(inner(I), len(inner(I))))
    start = u(s.length)
    _, cat = get_available_mutations(m, s, verbose=False)
    cat = [q for q in cat if I['pt'] or q[0] is not Mutation2OptIntersection]
    pick = cat if r.random() < .5 else r.sample(cat, r.randint(1, len(cat)))
    mu = quiet(BasicPortfolioMutation, [quiet(q[0].build, m, s, **q[1]) for q in pick], np.ones(len(pick)))
    params = get_default_objective_setup(m)
    rh = RestartHandlerLimit(r.choice([3, 20]), s, s.length) if r.random() < .5 else RestartHandler()
    mode = r.choice([ModeMutation.MUTATE, ModeMutation.MUTATE_AND_EVALUATE])
    kw = dict(evaluator=m, mutator=mu, restart_handler=rh, mode_mutation=mode, params_objective_function=params, store_solution=r.random() < .5)
    ls = HillClimber(**kw) if r.random() < .5 else SimulatedAnnealing(temperature_handler=TemperatureSchedulingFactor(r.choice([1e-6, 2 * sc, 50 * sc]), rh, .95), **kw)
    res = quiet(ls.solve, s, r.choice([0, 5, 60]))
    for sol, fit in [res.get_best_solution_fit()] + list(res.list_solution_fits[:3]):
        top = sol is res.get_best_solution_fit()[0]
        v = u(m.evaluate(sol.copy())['length'])
        tr.ev('found', x=up(sol.permutation), fit=u(fit), len=v, start=start if top and fit == res.get_best_solution_fit()[1] else 0, exact=False, local=False)
    b = res.best_solution
    tr.ev('found', x=up(b.permutation), fit=u(res.get_best_solution_fit()[1]), len=u(m.evaluate(b)['length']), start=start, exact=False, local=False)

def one(res):
    (sol, fit), = res.list_solution_fits
    assert res.get_best_solution_fit()[0] is sol
    return sol, fit
def tsolve(tr, r, big):
    I, sc = tinst(r, big, plane=r.random() < .7, lo=4)
    while len(inner(I)) < 2: I, sc = tinst(r, big, lo=4)
    tr.d['I'] = I; u = Unit(sc)
    m = tmodel(I, sc, r.random() < .3)
    sv = TSP_ORtools(m, get_default_objective_setup(m) if r.random() < .5 else None)
    sv.init_model()
    if hasattr(sv, 'search_parameters'): sv.search_parameters.time_limit.seconds = 1
    sol, fit = one(quiet(sv.solve))
    tr.ev('found', x=up(sol.permutation), fit=u(fit), len=u(m.evaluate(sol)['length']), start=0, exact=False, local=True)

def write(text):
    f, name = tempfile.mkstemp(dir=os.environ.get('TMPDIR', '/tmp')); os.write(f, text.encode()); os.close(f); return name

def tools(tr, r, big):
    I, sc = tinst(r, big, plane=True, lo=2)
    if r.random() < .3:
        for _ in range(2): q = r.randrange(I['n']); I['pt'][q] = list(r.choice(I['pt']))
        pt = [tuple(p) for p in I['pt']]; I['d'] = dist(pt); I['m'] = manhattan(pt)
    if sc < 1: sc = 1                                        # the ranking truncates coordinates
    tr.d['I'] = I; u = Unit(sc); n = I['n']
    P = [Point2D(sc * x, sc * y) for x, y in I['pt']]
    sol, l, _ = quiet(TT.closest_greedy, n, P)
    tr.ev('greedy', x=up(sol), len=u(l), near=True)
    sol, l, _ = TT.baseline_in_order(n, P)
    tr.ev('greedy', x=up(sol), len=u(l), near=False); assert list(sol) == list(range(n))
    p = r.sample(range(n), n)
    legs, l = TT.compute_length(p, P, n)
    tr.ev('circuit', x=up(p), legs=u.all(legs), len=u(l))
    def text(v): return ('%d' % v if float(v) == int(v) and r.random() < .5 else '%s' % float(v))
    body = '\n'.join([str(n)] + [r.choice(['%s %s', ' %s  %s ', '%s\t%s']) % (text(sc * x), text(sc * y)) for x, y in I['pt']]) + r.choice(['', '\n'])
    k, q = TT.parse(body)
    tr.ev('points', n=k, pt=[[u(a.x), u(a.y)] for a in q], a=I['a'], b=I['b'])
    f = write(body)
    try:
        m = parse_tsp(f, I['a'] - 1, I['b'] - 1)
        tr.ev('points', n=m.node_count, pt=[[u(a.x), u(a.y)] for a in m.list_points], a=m.start_index + 1, b=m.end_index + 1)
        m = parse_tsp(f)
        tr.ev('problem', I=dict(I, a=1, b=1))
        tr.ev('points', n=m.node_count, pt=[[u(a.x), u(a.y)] for a in m.list_points], a=m.start_index + 1, b=m.end_index + 1)
    finally: os.remove(f)

# ------------------------------------------------------------------ vehicle routes
class MatrixVRP(VrpProblem):
    def __init__(self, m, *a):
        self.m = m; super().__init__(*a); self.f = VM.build_evaluate_function(self)
    def evaluate_function_indexes(self, i, j): return self.m[i][j]
    def evaluate_function(self, s): return self.f(s)

def vinst(r, big, n=None, nv=None, plane=False, loose=False):
    n = n or r.randint(2, 8 if big else 6); nv = nv or r.randint(1, 3)
    ends = r.choice(['one', 'same', 'any'])
    fr = [0 if ends == 'one' else r.randrange(n) for _ in range(nv)]
    to = list(fr) if ends != 'any' else [r.randrange(n) for _ in range(nv)]
    need = [r.randint(0, 5) for _ in range(n)]
    if r.random() < .6:
        for i in fr + to: need[i] = 0
    cap = max(1, sum(need) // nv + r.choice([-2, 0, 1, 3, 8]))
    room = [cap] * nv if r.random() < .6 else [r.randint(0, sum(need) + 1) for _ in range(nv)]
    if loose: room = [max(c, max(need)) + 1 for c in room]
    I, sc = tinst(r, big, n=n, plane=plane)
    return dict(n=n, d=I['d'], pt=I['pt'], need=need, room=room, **{'from': [i + 1 for i in fr], 'to': [i + 1 for i in to]}), sc
def vmodel(I, sc):
    a = (len(I['room']), list(I['room']), I['n'])
    e = ([i - 1 for i in I['from']], [i - 1 for i in I['to']])
    if I['pt']: return VrpProblem2D(*a, [Customer2D(i, I['need'][i], sc * x, sc * y) for i, (x, y) in enumerate(I['pt'])], *e)
    return MatrixVRP([[sc * x for x in row] for row in I['d']], *a, [BasicCustomer('c%d' % i, I['need'][i]) for i in range(I['n'])], *e)
def routes(tr, u, m, s, keep):
    d = m.evaluate(s)
    tr.ev('routes', r=[up(p) for p in s.list_paths], legs=[u.all(l) for l in s.lengths], len=u(s.length), load=ints(s.capacities), obj=u(d['length']), viol=int(d['capacity_violation']),
          ok=bool(m.satisfy(s)), keep=[up(p) for p in keep])
def vplan(tr, u, by, m, s, fit):
    tr.ev('plan', by=by, r=[up(p) for p in s.list_paths], fit=u(fit))
def customers(I): return [i for i in range(I['n']) if i + 1 not in I['from'] + I['to']]
def deal(r, I):
    c = customers(I); r.shuffle(c)
    k = r.random()
    if k < .15 and c: c = c[:-1]
    elif k < .25 and c: c = c + [r.choice(c)]
    elif k < .3: c = c + [r.randrange(I['n'])]
    out = [[] for _ in I['room']]
    for i in c: r.choice(out).append(i)
    return out
def fleet(tr, r, big):
    I, sc = vinst(r, big, loose=r.random() < .5); tr.d['I'] = I; u = Unit(sc)
    m = vmodel(I, sc); nv = len(I['room'])
    for _ in range(6 if big else 4):
        R = deal(r, I)
        s = VrpSolution(m, list(m.start_indexes), list(m.end_indexes), [list(p) for p in R])
        if r.random() < .3: assert isinstance(m.satisfy(s), (bool, np.bool_))
        routes(tr, u, m, s, R)
        c = r.choice([s.copy, s.lazy_copy])(); routes(tr, u, m, c, R)
        c = s.copy(); c.list_paths[0].append(0); c.lengths[0].append(0); c.capacities[0] += 1
        routes(tr, u, m, s, R)
        v = r.randrange(nv)
        if R[v] and I['pt']:
            l, t = VM.compute_length_np(m.start_indexes[v], m.end_indexes[v], np.array(R[v]), np.array([[sc * x, sc * y] for x, y in I['pt']], float))
            tr.ev('route', v=v + 1, p=up(R[v]), legs=u.all(l), len=u(t))
    s = quiet(m.get_dummy_solution); vplan(tr, u, 'greedy', m, s, 0 - m.evaluate(s)['length'])
    routes(tr, u, m, s, s.list_paths)
    sol, fit = one(GreedyVRPSolver(m).solve()); vplan(tr, u, 'greedy', m, sol, fit)
    s = quiet(m.get_stupid_solution); vplan(tr, u, 'first', m, s, 0 - m.evaluate(s)['length'])
    routes(tr, u, m, s, s.list_paths)
    near, D = VT.compute_length_matrix(m)
    tr.ev('near', q=[up(x) for x in near]); tr.ev('matrix', d=[u.all(x) for x in D])
    k = r.choice([1, 2, 3, I['n'] - 1, I['n'], 10]); k = max(1, k)
    A, D = VT.prune_search_space(m, k)
    tr.ev('pruned', k=k, m=[u.all(x) for x in A], d=[u.all(x) for x in D])
    G, D = VT.build_graph(m)
    tr.ev('network', e=[[a + 1, b + 1, u(G[a][b]['weight'])] for a, b in G.edges()]); tr.ev('matrix', d=[u.all(x) for x in D])
    R = deal(r, I)
    s = VrpSolution(m, m.start_indexes, m.end_indexes, [list(p) for p in R])
    m.evaluate(s)
    I2, sc2 = vinst(r, big, n=I['n'], nv=nv, plane=bool(I['pt']))
    I2['from'], I2['to'] = I['from'], I['to']
    m2 = vmodel(I2, sc2); s.change_problem(m2)
    tr.ev('problem', I=I2); assert s.problem is m2
    routes(tr, Unit(sc2), m2, s, R)

def vparse(tr, r, big):
    from skdecide.builders.discrete_optimization.vrp.vrp_toolbox import parse_input, recompute_output, output_result
    n, nv, cap = r.randint(2, 6), r.randint(1, 3), r.randint(1, 20)
    pt = points(r, n); need = [r.randint(0, 9) for _ in range(n)]
    I = dict(n=n, d=dist(pt), pt=[list(p) for p in pt], need=need, room=[cap] * nv, **{'from': [1] * nv, 'to': [1] * nv}); tr.d['I'] = I
    body = '\n'.join(['%d %d %d' % (n, nv, cap)] + ['%d %s %s' % (w, float(x), y) for w, (x, y) in zip(need, pt)]) + r.choice(['', '\n'])
    a, c, k, cs = parse_input(body)
    assert (a, c, k) == (nv, cap, n) and [q.index for q in cs] == list(range(n))
    u = Unit(1)
    tr.ev('fleet', need=[q.demand for q in cs], pt=[[u(q.x), u(q.y)] for q in cs], room=[c] * a, **{'from': [1] * nv, 'to': [1] * nv})
    R = deal(r, I)
    tours, obj, _ = recompute_output({v: [0] + R[v] for v in range(nv)}, cs)
    s = [[q.index for q in t] for t in tours]
    tr.ev('routes', r=[up(p) for p in s], legs=[[I['d'][a][b] for a, b in zip([0] + p, p + [0])] for p in s], len=u(obj), obj=u(obj), load=[need[0] + sum(need[i] for i in p) for p in s],
          viol=sum(max(0, need[0] + sum(need[i] for i in p) - cap) for p in s), ok=sorted(sum(s, [])) == list(range(1, n)) and all(need[0] + sum(need[i] for i in p) <= cap for p in s), keep=[up(p) for p in R])
    txt = quiet(output_result, tours, obj, 0, nv, cs[0]).split('\n')
    assert txt[0] == '%.2f 0' % obj and [[int(x) for x in q.split()] for q in txt[1:nv + 1]] == [[0] + p + [0] for p in R]

def vsolve(tr, r, big):
    while True:
        I, sc = vinst(r, big, loose=True)
        I['room'] = [c + r.choice([0, 3]) for c in I['room']]
        m = vmodel(I, sc)
        s, f = VM.trivial_solution(m)
        e = [i - 1 for i in I['from'] + I['to']]
        if customers(I) and f['capacity_violation'] == 0 and m.satisfy(s) and all(I['need'][i] == 0 for i in e): break
    tr.d['I'] = I; u = Unit(sc)
    sv = VrpORToolsSolver(m)
    if r.random() < .5: sv.init_model()
    sol, fit = one(quiet(sv.solve, limit_time_s=1))
    vplan(tr, u, 'solver', m, sol, fit); routes(tr, u, m, sol, sol.list_paths)

def main():
    d = Driver()
    n = 400 if d.thorough else 80
    for fam, f, k in (('tour', tour, 1), ('moves', moves, 1.6), ('crossings', crossings, .7), ('search', search, 1), ('tools', tools, .6), ('fleet', fleet, 1), ('vparse', vparse, .3),
                      ('tsolve', tsolve, .06), ('vsolve', vsolve, .06)):
        for i in range(int(n * k)):
            def go(tr, i=i, fam=fam, f=f):
                r = d.rng(fam, i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
                f(tr, r, d.thorough or i % 4 == 0)
            d.run(fam, i, go, secs=120)
main()
