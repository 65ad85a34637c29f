"""Knapsack, colouring, facility location and the graph they share: worth of plans, heuristics, dynamic programme."""
import contextlib, io, random
from common import Driver
import numpy as np
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Item, KnapsackModel, KnapsackModel_Mobj, KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.solvers import greedy_solvers as KG
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import KnapsackDynProg
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import GreedyColoring, NXGreedyColoringMethod as NX
from skdecide.builders.discrete_optimization.coloring.coloring_toolbox import compute_cliques
from skdecide.builders.discrete_optimization.facility.facility_model import Facility, Customer, Point, FacilityProblem, FacilityProblem2DPoints, FacilitySolution
from skdecide.builders.discrete_optimization.facility.solvers.greedy_solvers import GreedySolverFacility
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def num(x):
    f = float(x)
    return int(f) if f == int(f) and abs(f) < 10**8 else -777777
def ints(q): return [int(x) for x in q]
def stored(res):
    """The plan and fitness a solver returned, when it returned exactly one and designates it as the best."""
    (sol, fit), = res.list_solution_fits
    best, bfit = res.get_best_solution_fit()
    assert best is sol and bfit == fit and res.get_best_solution() is sol, 'best solution is another one'
    return sol, fit

# ------------------------------------------------------------------ knapsack
def kinst(r, big, wmin=1):
    n = r.randint(1, 8 if big else 6)
    wmax = r.choice([1, 3, 6, 9]); w = [r.randint(wmin, wmax) for _ in range(n)]
    v = [r.choice([0, 1, 2, 3, 5, 7, 10]) for _ in range(n)]
    if r.random() < .3: v = [x * r.randint(1, 2) for x in w]          # many ties
    cap = r.choice([0, 1, sum(w) // 2, sum(w) - 1, sum(w), max(w), max(w) - 1, r.randint(0, sum(w) + 1)])
    idx = list(range(n))
    k = r.random()
    if k < .3: r.shuffle(idx)
    elif k < .5: idx = [3 * i + r.choice([1, 2]) for i in r.sample(range(20), n)]
    return dict(v=v, w=w, cap=max(0, cap), idx=idx)

def kmodel(I, cls=KnapsackModel, force=False):
    return cls([Item(i, v, w) for i, v, w in zip(I['idx'], I['v'], I['w'])], I['cap'], force)

def kworth(tr, m, sol, keep):
    x = ints(sol.list_taken)
    d = m.evaluate(sol)
    ok = bool(m.satisfy(sol))
    tr.ev('kworth', x=x, value=num(d['value']), viol=num(d['weight_violation']), ok=ok, same=ints(sol.list_taken) == x == keep)

def knapsack(tr, r, big):
    I = kinst(r, big); tr.d['I'] = I
    force = r.random() < .4
    m = kmodel(I, r.choice([KnapsackModel, KnapsackModel_Mobj]), force)
    mo = KnapsackModel_Mobj.from_knapsack(m)
    n = len(I['v'])
    code = m.get_attribute_register()
    assert code.dict_attribute_to_type['list_taken']['n'] == n
    for _ in range(6 if big else 4):
        x = [r.randint(0, 1) for _ in range(n)]
        sol = KnapsackSolution(problem=m, list_taken=list(x))
        if r.random() < .5:                        # a copy edited before anything was evaluated
            c = sol.copy(); c.list_taken[r.randrange(n)] ^= 1
        if r.random() < .3: m.satisfy(sol)
        kworth(tr, m, sol, x)
        c = r.choice([sol.copy, sol.lazy_copy])()
        kworth(tr, m, c, x)
        e = m.evaluate_from_encoding(list(x), 'list_taken')
        tr.ev('kcode', x=x, value=num(e['value']), viol=num(e['weight_violation']))
        s2 = KnapsackSolution(problem=mo, list_taken=list(x))
        d = mo.evaluate(s2); f = mo.evaluate_mobj(s2)
        tr.ev('kmobj', x=x, value=num(d['value']), viol=num(d['weight_violation']), heavy=num(d['heaviest_item']), weight=num(d['weight']), fit=[num(y) for y in f.vector_fitness])
        if force:                                  # the plan is edited in place, values are recomputed
            y = list(x); i = r.randrange(n); y[i] = 1 - y[i]
            sol.list_taken[i] = y[i]
            ok = bool(m.satisfy(sol))
            d = m.evaluate(sol)
            tr.ev('kworth', x=y, value=num(d['value']), viol=num(d['weight_violation']), ok=ok, same=True)
        c = sol.copy(); c.list_taken[r.randrange(n)] ^= 1          # the copy is the caller's own
        tr.ev('kworth', x=ints(sol.list_taken), value=num(m.evaluate(sol)['value']), viol=num(m.evaluate(sol)['weight_violation']), ok=bool(m.satisfy(sol)), same=True)
    x = [r.randint(0, 1) for _ in range(n)]
    sol = KnapsackSolution(problem=m, list_taken=list(x)); m.evaluate(sol)
    I2 = kinst(r, big)
    while len(I2['v']) != n: I2 = kinst(r, big)
    m2 = kmodel(I2)
    sol.change_problem(m2)
    tr.ev('problem', I=I2)
    assert sol.problem is m2
    kworth(tr, m2, sol, x)

def kplan(tr, by, sol, fit):
    tr.ev('kplan', by=by, x=ints(sol.list_taken), value=num(sol.value), weight=num(sol.weight), fit=num(fit))

def ksolve(tr, r, big):
    zero = r.random() < .15
    I = kinst(r, big, 0 if zero else 1); tr.d['I'] = I
    m = kmodel(I)
    kplan(tr, 'dummy', m.get_dummy_solution(), 0)
    sol, fit = stored(KG.GreedyDummy(m).solve()); kplan(tr, 'dummy', sol, fit)
    if not zero:
        s = KG.greedy_using_queue(m); kplan(tr, 'queue', s, s.value)
        s = KG.greedy_using_queue(m, KG.compute_density_and_penalty); kplan(tr, 'light', s, s.value)
        s = KG.best_of_greedy(m); kplan(tr, 'best', s, s.value)
        sol, fit = stored(KG.GreedyBest(m).solve()); kplan(tr, 'best', sol, fit)
    one = KnapsackDynProg(m) if r.random() < .5 else None      # the same solver asked again, or a new one each time
    for how in r.sample(['solve', 'np'] * 2, 4):
        d = one or KnapsackDynProg(m)
        d.init_model()
        kw = {} if zero or r.random() < .5 else dict(greedy_start=True)
        if r.random() < .2: kw['max_time_seconds'] = 1000
        sol, fit = stored(quiet(d.solve if how == 'solve' else d.solve_np, **kw))
        kplan(tr, 'dynamic', sol, fit)

# ------------------------------------------------------------------ graphs
def ginst(r, big, directed=None, loops=False, nmax=None):
    n = r.randint(1, nmax or (7 if big else 6))
    p = r.choice([.1, .3, .5, .8, 1.])
    dr = r.random() < .3 if directed is None else directed
    e = [[i, j] for i in range(1, n + 1) for j in range(1, n + 1) if (i != j or loops) and (dr or i <= j) and r.random() < p]
    e = [q if r.random() < .6 or dr else q[::-1] for q in e]
    r.shuffle(e)
    if e and r.random() < .2: e.append(r.choice(e)[:])               # listed twice
    if e and r.random() < .2 and not loops: q = r.choice(e); e.append(q[::-1])
    if dr and r.random() < .4: e = [q for q in e if q[0] < q[1]]
    return dict(n=n, e=e, dir=dr, lab=[r.randint(0, 9) for _ in e], mark=[r.randint(0, 9) for _ in range(n)])

def names(r, n):
    k = r.random()
    if k < .4: return list(range(n))
    if k < .6: return sorted(r.sample(range(100), n))
    return sorted(['n%d' % i for i in r.sample(range(30), n)])

def graph(I, r):
    nm = names(r, I['n'])
    order = list(range(I['n']))
    if r.random() < .5: r.shuffle(order)
    return nm, Graph([(nm[i], {'mark': I['mark'][i]}) for i in order], [(nm[i - 1], nm[j - 1], {'w': w}) for (i, j), w in zip(I['e'], I['lab'])], undirected=not I['dir'])

def api(tr, r, big):
    I = ginst(r, big, loops=r.random() < .2); tr.d['I'] = I
    nm, g = graph(I, r)
    at = {x: i + 1 for i, x in enumerate(nm)}
    sq = lambda q: sorted(at[x] for x in q)
    gx = g.to_networkx()
    for i, x in enumerate(nm):
        lab = [g.get_attr_edge(x, y, 'w') for y in nm]
        tr.ev('node', i=i + 1, succ=sq(g.get_neighbors(x)), pred=sq(g.get_predecessors(x)), before=sq(g.precedessors_nodes(x)), mark=g.get_attr_node(x, 'mark'),
              nx=sq(gx.neighbors(x)), edge=[-777777 if w is None else w for w in lab])
    c = g.check_loop() or []
    tr.ev('whole', nodes=sq(g.get_nodes()), edges=[[at[a], at[b]] for a, b in g.get_edges()], loop=[[at[q[0]], at[q[1]]] for q in c])

def greedy(tr, r, p):
    def plan(by, sol, fit, others=()):
        d = p.evaluate(sol)
        tr.ev('cplan', by=by, x=ints(sol.colors), colors=num(d['nb_colors']), viol=num(d['nb_violations']), fit=num(fit), others=list(others))
    plan('dummy', p.get_dummy_solution(), -p.number_of_nodes)
    gs = GreedyColoring(p); others = []
    for s in NX:
        if s != NX.best:
            sol, fit = stored(quiet(gs.solve, strategy=s, verbose=r.random() < .1)); plan(s.name, sol, fit)
            if s != NX.random_sequential: others.append(len(set(sol.colors)))
    for kw in ({}, dict(strategy=NX.best)):
        sol, fit = stored(quiet(gs.solve, **kw)); plan('best', sol, fit, others)

def strategies(tr, r, big):
    I = ginst(r, big, nmax=30 if big else 18); tr.d['I'] = I
    greedy(tr, r, ColoringProblem(graph(I, r)[1]))

def coloring(tr, r, big):
    I = ginst(r, big); tr.d['I'] = I
    nm, g = graph(I, r)
    at = {x: i + 1 for i, x in enumerate(nm)}
    p = ColoringProblem(g)
    assert [p.index_to_nodes_name[i] for i in range(I['n'])] == nm and all(p.index_nodes_name[x] == at[x] - 1 for x in nm)
    mk = lambda q: q if r.random() < .7 else np.array(q)
    def worth(p, sol, x):
        d = p.evaluate(sol)
        tr.ev('cworth', x=x, colors=num(d['nb_colors']), viol=num(d['nb_violations']), ok=bool(p.satisfy(sol)), same=ints(sol.colors) == x)
    for _ in range(5 if big else 3):
        k = r.randint(1, I['n'])
        x = [r.choice([3 * i + 1 for i in range(k)]) if _ % 2 else r.randrange(k) for _n in range(I['n'])]
        sol = ColoringSolution(p, mk(list(x)))
        worth(p, sol, x)
        worth(p, r.choice([sol.copy, sol.lazy_copy])(), x)
        e = p.evaluate_from_encoding(list(x), 'colors')
        tr.ev('ccode', x=x, colors=num(e['nb_colors']), viol=num(e['nb_violations']))
        if r.random() < .5: sol = ColoringSolution(p, list(x))
        y = sol.to_reformated_solution()
        d = p.evaluate(y)
        tr.ev('rename', x=x, y=ints(y.colors), colors=num(d['nb_colors']), viol=num(d['nb_violations']))
        c = sol.copy(); c.colors[0] += 1
        worth(p, sol, x)
    greedy(tr, r, p)
    und = g.to_networkx().to_undirected()
    for mx in [None] + [r.randint(1, 5) for _ in range(2)]:
        q, cut = quiet(compute_cliques, und, mx)
        tr.ev('cliques', q=[[at[x] for x in c] for c in q], cut=bool(cut), max=-1 if mx is None else mx)
    sol = ColoringSolution(p, [r.randrange(I['n']) for _ in range(I['n'])]); x = ints(sol.colors); p.evaluate(sol)
    I2 = ginst(r, big)
    while I2['n'] != I['n']: I2 = ginst(r, big)
    p2 = ColoringProblem(graph(I2, r)[1])
    sol.change_problem(p2)
    tr.ev('problem', I=I2)
    worth(p2, sol, x)

# ------------------------------------------------------------------ facility
class Matrix(FacilityProblem):
    def __init__(self, d, *a): super().__init__(*a); self.dd = d
    def evaluate_customer_facility(self, facility, customer): return self.dd[facility.index][customer.index]

def finst(r, big, flat=None):
    f, c = r.randint(1, 4), r.randint(1, 7 if big else 5)
    need = [r.choice([0, 1, 2, 3, 4, 5]) for _ in range(c)]
    room = [r.choice([0, 2, 3, 5, 8, sum(need)]) for _ in range(f)]
    if flat:
        (fx, fy), (cx, cy) = [([r.randint(0, 9) for _ in range(k)], [0] * k) for k in (f, c)]
        if r.random() < .5: fx = [3 * q for q in fx]; fy = [4 * q for q in [x // 3 for x in fx]]; cx = [3 * q for q in cx]; cy = [4 * q // 3 for q in cx]
        d = [[round(((a - x) ** 2 + (b - y) ** 2) ** .5) for x, y in zip(cx, cy)] for a, b in zip(fx, fy)]
        return dict(d=d, setup=[r.randint(0, 5) for _ in room], room=room, need=need, pos=[list(zip(fx, fy)), list(zip(cx, cy))])
    return dict(d=[[r.randint(0, 9) for _ in need] for _ in room], setup=[r.randint(0, 5) for _ in room], room=room, need=need, pos=[[(0, 0)] * f, [(0, 0)] * c])

def fmodel(I, flat):
    fs = [Facility(i, s, k, Point(*p)) for i, (s, k, p) in enumerate(zip(I['setup'], I['room'], I['pos'][0]))]
    cs = [Customer(i, k, Point(*p)) for i, (k, p) in enumerate(zip(I['need'], I['pos'][1]))]
    return FacilityProblem2DPoints(len(fs), len(cs), fs, cs) if flat else Matrix(I['d'], len(fs), len(cs), fs, cs)

def facility(tr, r, big):
    flat = r.random() < .4
    I = finst(r, big, flat); tr.d['I'] = I
    p = fmodel(I, flat)
    F, C = len(I['room']), len(I['need'])
    assert p.get_attribute_register().dict_attribute_to_type['facility_for_customers']['arrity'] == F
    up = lambda q: [int(i) + 1 for i in q]
    def worth(p, sol, x):
        d = p.evaluate(sol); per = d['details']
        tr.ev('fworth', x=up(x), cost=num(d['cost']), setup=num(d['setup_cost']), viol=num(d['capacity_constraint_violation']), ok=bool(p.satisfy(sol)),
              per=[[f + 1, num(v['capacity_used']), num(v['cost']), num(v['setup_cost'])] for f, v in per.items()], who=[up(sorted(v['customers'])) for v in per.values()], same=ints(sol.facility_for_customers) == x)
        return d
    for _ in range(5 if big else 3):
        x = [r.randrange(F) for _ in range(C)]
        sol = FacilitySolution(p, list(x))
        d = worth(p, sol, x)
        if r.random() < .5: sol.dict_details = d
        c = r.choice([sol.copy, sol.lazy_copy])()
        worth(p, c, x)
        e = p.evaluate_from_encoding(list(x), 'facility_for_customers')
        tr.ev('fcode', x=up(x), cost=num(e['cost']), setup=num(e['setup_cost']), viol=num(e['capacity_constraint_violation']))
        c = sol.copy(); c.facility_for_customers[0] = r.randrange(F)
        if c.dict_details: c.dict_details['cost'] += 1; next(iter(c.dict_details['details'].values()))['capacity_used'] += 1
        worth(p, sol, x)
    dm = p.get_dummy_solution(); tr.ev('fplan', by='dummy', x=up(dm.facility_for_customers), fit=0)
    try: res = GreedySolverFacility(p).solve()
    except (AssertionError, IndexError): tr.ev('fstuck')
    else:
        sol, fit = stored(res); tr.ev('fplan', by='greedy', x=up(sol.facility_for_customers), fit=num(fit)); worth(p, sol, ints(sol.facility_for_customers))
    sol = FacilitySolution(p, [r.randrange(F) for _ in range(C)]); x = ints(sol.facility_for_customers); sol.dict_details = p.evaluate(sol)
    flat2 = r.random() < .4
    I2 = finst(r, big, flat2)
    while (len(I2['room']), len(I2['need'])) != (F, C): I2 = finst(r, big, flat2)
    p2 = fmodel(I2, flat2)
    sol.change_problem(p2)
    tr.ev('problem', I=I2)
    worth(p2, sol, x)

def main():
    d = Driver()
    n = 500 if d.thorough else 90
    for fam, f, k in (('knapsack', knapsack, 1), ('kplan', ksolve, 2), ('graph', api, 1), ('coloring', coloring, 1), ('strategies', strategies, .6), ('facility', facility, 1.2)):
        for i in range(int(n * k)):
            def go(tr, i=i, fam=fam, f=f):
                r = d.rng(fam, i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
                f(tr, r, d.thorough or i % 4 == 0)
            d.run(fam, i, go, secs=120)
main()
