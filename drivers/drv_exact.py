"""Constraint models, linear programmes and neighbourhood searches for knapsack, colouring and facility problems."""
import contextlib, io, random
import stubs; stubs.install(); stubs.cbc()
from common import Driver
import numpy as np
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Item, KnapsackModel, KnapsackSolution
from skdecide.builders.discrete_optimization.knapsack.solvers.cp_solvers import CPKnapsackMZN2
from skdecide.builders.discrete_optimization.knapsack.solvers.lp_solvers import LPKnapsackCBC, LPKnapsack
from skdecide.builders.discrete_optimization.knapsack.solvers import knapsack_lns_solver as KM, knapsack_lns_cp_solver as KC
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.coloring.solvers.coloring_cp_solvers import ColoringCP, ColoringCPModel
from skdecide.builders.discrete_optimization.coloring.solvers.coloring_lp_solvers import ColoringLP_MIP
from skdecide.builders.discrete_optimization.coloring.solvers import coloring_cp_lns_solvers as CC, coloring_lp_lns_solvers as CM
from skdecide.builders.discrete_optimization.facility.facility_model import Facility, Customer, Point, FacilityProblem, FacilityProblem2DPoints, FacilitySolution
from skdecide.builders.discrete_optimization.facility.solvers.facility_cp_solvers import FacilityCP, FacilityCPModel
from skdecide.builders.discrete_optimization.facility.solvers.facility_lp_solver import LP_Facility_Solver_CBC, LP_Facility_Solver_PyMip, prune_search_space
from skdecide.builders.discrete_optimization.facility.solvers import facility_lp_lns_solver as FM
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import MilpSolverName, ParametersMilp
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.lns_mip import LNS_MILP, PostProcessSolution, TrivialPostProcessSolution
from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def num(x):
    f = float(x)
    return int(round(f)) if abs(f - round(f)) < 1e-6 and abs(f) < 10**8 else -777777
PLAN = dict(k=lambda s: [int(x) for x in s.list_taken], c=lambda s: [int(x) for x in s.colors], f=lambda s: [int(x) + 1 for x in s.facility_for_customers])

class Kind:
    """A problem of one kind, the solvers that decide it, and what they need to know."""
    def __init__(self, tr, r, kind, small):
        self.tr, self.r, self.kind = tr, r, kind
        self.I, self.p = getattr(self, kind + '_inst')(r, small)
        tr.d['I'] = self.I
        self.obj = quiet(get_default_objective_setup, self.p)
    def k_inst(self, r, small):
        n = r.randint(1, 5 if small else 9)
        w = [r.randint(0, r.choice([3, 8])) for _ in range(n)]
        v = [r.randint(0, 10) for _ in range(n)] if r.random() < .7 else list(w)
        idx = r.sample(range(20), n) if r.random() < .7 else list(range(n))
        I = dict(v=v, w=w, cap=r.choice([0, sum(w) // 2, max(0, sum(w) - 1), sum(w) + 1, r.randint(0, sum(w) + 1)]))
        return I, KnapsackModel([Item(*q) for q in zip(idx, v, w)], I['cap'], r.random() < .5)
    def c_inst(self, r, small):
        n = r.randint(2, 5 if small else 6)
        pr = r.choice([.3, .5, .7, 1.])
        e = [[i, j] if r.random() < .5 else [j, i] for i in range(1, n + 1) for j in range(1, i) if r.random() < pr]
        form = r.choice(['one', 'one', 'both', 'directed'])
        nm = r.choice([lambda i: 'n%d' % i, lambda i: i, lambda i: 3 * i + 2])
        order = list(range(n)); r.shuffle(order)
        listed = e + [q[::-1] for q in e] if form == 'both' else list(e)
        if form != 'both' and e and r.random() < .3: listed.append(r.choice(e)[::-1 if form == 'one' else 1])
        r.shuffle(listed)
        names = [nm(i) for i in range(n)]
        g = Graph([(names[i], {}) for i in order], [(names[a - 1], names[b - 1], {}) for a, b in listed], undirected=form != 'directed')
        p = ColoringProblem(g)
        at = {p.index_to_nodes_name[i]: i + 1 for i in range(n)}               # places of a plan
        return dict(n=n, e=[[at[names[a - 1]], at[names[b - 1]]] for a, b in e], dir=False, lab=[], mark=[]), p
    def f_inst(self, r, small):
        F, C = r.randint(1, 3), r.randint(1, 4 if small else 5)
        need = [r.choice([0, 1, 2, 3, 4]) for _ in range(C)]
        while True:
            room = [r.choice([0, 2, 3, 5, 8, sum(need)]) for _ in range(F)]
            if self.fits(need, sorted(room), 0): break
        setup = [r.randint(0, 9) for _ in room]
        if r.random() < .3:
            x, y = [r.randint(0, 9) for _ in room], [r.randint(0, 9) for _ in need]
            I = dict(d=[[abs(a - b) for b in y] for a in x], setup=setup, room=room, need=need)
            return I, FacilityProblem2DPoints(F, C, [Facility(i, s, k, Point(a, 0)) for i, (s, k, a) in enumerate(zip(setup, room, x))], [Customer(i, k, Point(b, 0)) for i, (k, b) in enumerate(zip(need, y))])
        I = dict(d=[[r.randint(0, 9) for _ in need] for _ in room], setup=setup, room=room, need=need)
        class Matrix(FacilityProblem):
            def evaluate_customer_facility(self, facility, customer): return I['d'][facility.index][customer.index]
        return I, Matrix(F, C, [Facility(i, s, k, Point(0, 0)) for i, (s, k) in enumerate(zip(setup, room))], [Customer(i, k, Point(0, 0)) for i, k in enumerate(need)])
    def fits(self, need, room, i):
        return i == len(need) or any(room[f] >= need[i] and self.fits(need, room[:f] + [room[f] - need[i]] + room[f + 1:], i + 1) for f in range(len(room)))
    def pair(self, sf):
        s, fit = sf
        return [PLAN[self.kind](s), num(fit)]
    # -------------------------------------------------------------- solvers: (how, solver ready to be asked)
    def programme(self, wide=False):
        r = self.r
        if self.kind == 'k': s = LPKnapsack(self.p, MilpSolverName.CBC); s.init_model(); return s
        if self.kind == 'c':
            s = ColoringLP_MIP(self.p, None); s.init_model(use_cliques=r.random() < .5, greedy_start=not wide and r.random() < .6)
            return s
        s = LP_Facility_Solver_PyMip(self.p, MilpSolverName.CBC, None)
        s.init_model(**self.wide()); return s
    def wide(self):
        F = len(self.I['room'])
        return self.r.choice([dict(use_matrix_indicator_heuristic=False), dict(use_matrix_indicator_heuristic=True, n_shortest=F, n_cheapest=F)])
    def constraints(self, wide=False):
        if self.kind == 'k': s = CPKnapsackMZN2(self.p); s.init_model(); return s
        s = ColoringCP(self.p, None)
        s.init_model(cp_model=self.r.choice([ColoringCPModel.DEFAULT, ColoringCPModel.CLIQUES]), greedy_start=not wide and self.r.random() < .6); return s
    def params(self):
        p = ParametersCP.default(); p.intermediate_solution = self.r.random() < .6
        return p
    def exact(self, by, res, sure=True):
        if isinstance(res, tuple):
            s, d = res
            return self.tr.ev('exact', kind=self.kind, by=by, x=PLAN[self.kind](s), fit=-num(d['cost']) - num(d['setup_cost']) - 10000 * num(d['capacity_constraint_violation']), seen=[])
        s, fit = res.get_best_solution_fit()
        assert res.get_best_solution() is s or PLAN[self.kind](res.get_best_solution()) == PLAN[self.kind](s)
        self.tr.ev('exact', kind=self.kind, by=by, x=PLAN[self.kind](s), fit=num(fit), seen=[self.pair(q) for q in res.list_solution_fits])
    def all_exact(self):
        r = self.r
        def mip():
            s = self.programme(); res = s.solve(ParametersMilp.default())
            if r.random() < .4: self.exact('programme', res); res = s.solve(ParametersMilp.default())     # asked again
            return res
        self.exact('programme', quiet(mip))
        if self.kind == 'k':
            def old(): s = LPKnapsackCBC(self.p, None); s.init_model(); return s.solve()
            self.exact('programme 2', quiet(old))
        if self.kind == 'f':
            self.exact('programme 2', quiet(lambda: LP_Facility_Solver_CBC(self.p, None).solve(**self.wide())))
            def cp():
                s = FacilityCP(self.p, None)
                if r.random() < .5: s.init_model()
                return s.solve()
            self.exact('constraints', quiet(cp))
        else:
            def cp():
                s = self.constraints()
                return s.solve(self.params()) if self.kind == 'c' else s.solve(**(dict(parameter_cp=self.params()) if r.random() < .5 else {}))
            self.exact('constraints', quiet(cp))
    def pruned(self):
        r = self.r; F, C = len(self.I['room']), len(self.I['need'])
        a, b = r.randint(0, F), r.randint(0, F)
        if r.random() < .3: a = max(a, 1); b = max(0, b - 1)
        ind, dist = prune_search_space(self.p, n_cheapest=a, n_shortest=b)
        may = [[int(ind[f, c]) for c in range(C)] for f in range(F)]
        self.tr.ev('prune', cheap=a, near=b, may=may, d=[[num(dist[f, c]) for c in range(C)] for f in range(F)])
        def ok(c, room): return c == C or any(may[f][c] and room[f] >= self.I['need'][c] and ok(c + 1, room[:f] + [room[f] - self.I['need'][c]] + room[f + 1:]) for f in range(F))
        if not ok(0, list(self.I['room'])): return
        kw = dict(use_matrix_indicator_heuristic=True, n_shortest=b, n_cheapest=a)
        for by in ('programme', 'programme 2'):
            if by == 'programme': s, d = quiet(lambda: (lambda z: (z, self.p.evaluate(z)))(LP_Facility_Solver_PyMip(self.p, MilpSolverName.CBC, None).solve(ParametersMilp.default(), **kw).get_best_solution_fit()[0]))
            else: s, d = quiet(lambda: LP_Facility_Solver_CBC(self.p, None).solve(**kw))
            self.tr.ev('within', by=by, may=may, x=PLAN['f'](s), fit=-num(d['cost']) - num(d['setup_cost']) - 10000 * num(d['capacity_constraint_violation']))
    # -------------------------------------------------------------- neighbourhood searches
    def lns(self, how):
        r, K = self.r, self.kind
        N = len(self.I['v'] if K == 'k' else self.I['need'] if K == 'f' else range(self.I['n']))
        frac = r.choice([0., .25, .5, .5, .75, 1.])
        keep = int(frac * N)
        moves = []; me = self
        class Watch(PostProcessSolution):
            def __init__(self, inner): self.inner = inner
            def build_other_solution(self, res):
                raw = PLAN[K](res.get_best_solution_fit()[0])
                out = self.inner.build_other_solution(res)
                moves.append([raw, PLAN[K](out.get_best_solution_fit()[0])])
                if K == 'c' and isinstance(self.inner, CC.PostProcessSolutionColoring): moves[-1][1] = PLAN[K](out.list_solution_fits[-1][0])
                return out
        post = Watch(CC.PostProcessSolutionColoring(self.p, self.obj) if K == 'c' and r.random() < .7 else TrivialPostProcessSolution())
        skip = r.random() < .3; iters = r.randint(1, 4 if how == 'programme' else 3); lim = r.choice([None, None, 0, 1])
        free = skip; dummy = False        # the programme must know the colours of the plan it starts from
        if K == 'k': init = KM.InitialKnapsackSolution(self.p, r.choice(list(KM.InitialKnapsackMethod)[:1 if 0 in self.I['w'] else 2]), self.obj)
        elif K == 'c': init = (CM if how == 'programme' else CC); dummy = r.random() < .5; init = init.InitialColoring(self.p, init.InitialColoringMethod.DUMMY if dummy else init.InitialColoringMethod.GREEDY, self.obj)
        else: init = FM.InitialFacilitySolution(self.p, r.choice(list(FM.InitialFacilityMethod)[:2 if self.greedy() else 1]), self.obj)
        start = quiet(init.get_starting_solution)
        first = self.pair(start.get_best_solution_fit())
        if K == 'f' and not self.p.satisfy(start.get_best_solution_fit()[0]): skip = free = True
        class Same:
            def get_starting_solution(self): return start
        args = dict(nb_iteration_lns=iters, skip_first_iteration=skip)
        if lim is not None: args['nb_iteration_no_improvement'] = lim
        if how == 'programme':
            h = {'k': KM.ConstraintHandlerKnapsack, 'c': CM.ConstraintHandlerFixColorsPyMip, 'f': FM.ConstraintHandlerFacility}[K]
            if K == 'f':
                late = skip or r.random() < .5                 # the first move may be told to be free
                h = h(self.p, frac, late and not skip)
                free = free or late
            else: h = h(self.p, frac)
            go = lambda: LNS_MILP(self.p, self.programme(dummy), Same(), h, post, self.obj).solve_lns(ParametersMilp.default(), **args)
        else:
            h = (KC.ConstraintHandlerKnapsack if K == 'k' else CC.ConstraintHandlerFixColorsCP)(self.p, frac)
            go = lambda: LNS_CP(self.p, self.constraints(dummy), Same(), h, post, self.obj).solve_lns(self.params(), **args)
        res = quiet(go)
        best = self.pair(res.get_best_solution_fit())
        self.tr.ev('lns', kind=K, how=how, first=[] if skip else first, free=free, keep=keep, iters=iters, lim=2 * iters if lim is None else lim, moves=moves,
                   out=[self.pair(q) for q in res.list_solution_fits], best=best)
    def greedy(self):
        try: quiet(FM.GreedySolverFacility(self.p).solve)
        except (AssertionError, IndexError): return False
        return True
    def hold(self):
        """Part of a plan is held, the programme solved, what was held released, the programme solved again."""
        r, K = self.r, self.kind
        s = quiet(self.programme, True)
        N = len(self.I['v'] if K == 'k' else self.I['need'] if K == 'f' else range(self.I['n']))
        for _ in range(3):
            frac = r.choice([.25, .5, .75, 1.])
            h = {'k': KM.ConstraintHandlerKnapsack, 'c': CM.ConstraintHandlerFixColorsPyMip}.get(K)
            h = h(self.p, frac) if h else FM.ConstraintHandlerFacility(self.p, frac, False)
            plan = self.plan()
            if plan is None: return
            store = ResultStorage([(plan, 0)], plan, mode_optim=self.obj.sense_function)
            c = quiet(h.adding_constraint_from_results_store, milp_solver=s, result_storage=store)
            one = quiet(s.solve, ParametersMilp.default()).get_best_solution_fit()
            quiet(h.remove_constraints_from_previous_iteration, milp_solver=s, previous_constraints=c)
            two = quiet(s.solve, ParametersMilp.default()).get_best_solution_fit()
            self.tr.ev('hold', kind=K, x=PLAN[K](plan), keep=int(frac * N), one=self.pair(one), two=self.pair(two))
    def plan(self):
        """Any feasible plan."""
        r, K = self.r, self.kind
        if K == 'k':
            x = [0] * len(self.I['v'])
            for i in r.sample(range(len(x)), len(x)):
                if r.random() < .6 and sum(a * b for a, b in zip(x, self.I['w'])) + self.I['w'][i] <= self.I['cap']: x[i] = 1
            return KnapsackSolution(self.p, list_taken=x)
        if K == 'c':
            x = list(range(self.I['n'])); r.shuffle(x)
            return ColoringSolution(self.p, x)
        for _ in range(200):
            z = FacilitySolution(self.p, [r.randrange(len(self.I['room'])) for _ in self.I['need']])
            if self.p.satisfy(z): return z
    def compact(self):
        r = self.r; n = self.I['n']
        for _ in range(4):
            x = [r.randrange(n) if _ % 2 else r.choice([0, n - 1, n - 1, 1]) for _i in range(n)]
            z = ColoringSolution(self.p, list(x))
            st = CC.PostProcessSolutionColoring(self.p, self.obj).build_other_solution(ResultStorage([(z, -500)], z, mode_optim=self.obj.sense_function))
            self.tr.ev('compact', x=x, y=PLAN['c'](st.list_solution_fits[-1][0]), fit=num(st.list_solution_fits[-1][1]), size=len(st.list_solution_fits), old=PLAN['c'](st.list_solution_fits[0][0]))
    def descent(self):
        r = self.r; g = self.greedy() and r.random() < .7
        s = FacilityCP(self.p, None)
        first = quiet(s.get_solution, greedy_start=g)
        frac = r.choice([0., .3, .5, .8, 1.])
        if frac == 1. and not self.p.satisfy(first): frac = 0.
        iters = r.choice([1, 1, 2, 3])
        sol, d = quiet(s.solve_lns, fraction_to_fix=frac, nb_iteration=iters, greedy_start=g, cp_model=r.choice([FacilityCPModel.DEFAULT_INT_LNS]))
        if self.p.satisfy(first) or frac == 0.:
            self.tr.ev('descent', x=PLAN['f'](sol), fit=-num(d['cost']) - num(d['setup_cost']) - 10000 * num(d['capacity_constraint_violation']), first=PLAN['f'](first), keep=int(frac * len(self.I['need'])), once=iters == 1 and self.p.satisfy(first))

def own_lns(K):
    """The searches that the knapsack and facility solvers run themselves."""
    r = K.r
    if K.kind == 'k':
        N = len(K.I['v']); frac = r.choice([0., .25, .5, .75, 1.]); iters = r.randint(1, 3)
        def go():
            s = CPKnapsackMZN2(K.p); s.init_model()
            first = K.p.get_dummy_solution() if 0 in K.I['w'] or r.random() < .5 else KM.GreedyBest(K.p).solve().get_best_solution()
            return PLAN['k'](first), s.solve_lns(first, frac, iters, 100.)
        first, (last, log) = quiet(go)
        out = [[[int(x) for x in t], num(v)] for t, v in zip(log['taken'], log['objective'])]
        assert [num(x) for x in log['weight']] == [sum(a * b for a, b in zip(t, K.I['w'])) for t, _ in out], 'weights'
        K.tr.ev('lns', kind='k', how='own', first=out[0], free=False, keep=int(frac * N), iters=iters, lim=iters + 1, moves=[[t, t] for t, _ in out[1:]], out=out,
                best=[PLAN['k'](last[0]), num(last[0].value)])
        assert out[0][0] == first
    if K.kind == 'f':
        g = K.greedy() and r.random() < .7
        first = KM_first(K, g)
        a, b = r.choice([0., 0., .5, 1.]), r.choice([0., .5, .9, 1.]); iters = r.randint(1, 4)
        if not K.p.satisfy(first): a = 0.
        sol, d = quiet(LP_Facility_Solver_CBC(K.p, None).solve_lns, fraction_to_fix_first_iter=a, fraction_to_fix=b, nb_iteration=iters, greedy_start=g, **K.wide())
        N = len(K.I['need']); ks = [int(a * N)] + [int(b * N)] * (iters - 1)
        e = dict(x=PLAN['f'](sol), fit=-num(d['cost']) - num(d['setup_cost']) - 10000 * num(d['capacity_constraint_violation']), first=PLAN['f'](first))
        K.tr.ev('descent', once=False, keep=min(ks) if 0 in ks else max(0, min(ks)), **e)
def KM_first(K, g):
    return quiet(lambda: FM.GreedySolverFacility(K.p).solve().get_best_solution_fit()[0]) if g else K.p.get_dummy_solution()

def main():
    d = Driver()
    n = 160 if d.thorough else 40
    for kind in 'kcf':
        for i in range(n):
            def go(tr, i=i, kind=kind):
                r = d.rng(kind, i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
                K = Kind(tr, r, kind, False)
                K.all_exact()
                if kind == 'f': K.pruned()
            d.run('exact ' + kind, i, go, secs=120)
        for i in range(n):
            def go(tr, i=i, kind=kind):
                r = d.rng('lns', kind, i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
                K = Kind(tr, r, kind, True)
                K.lns('programme'); K.lns('programme')
                K.hold()
                if kind == 'c': K.compact()
                if kind == 'f': K.descent(); K.descent(); K.descent()
                if kind != 'c': own_lns(K)
                if kind == 'c' and i % 2 or kind == 'k' and i % 4 == 0: K.lns('constraints')
            d.run('lns ' + kind, i, go, secs=120)
main()
