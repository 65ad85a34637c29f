"""Fitness of solutions, combined scenarios, evaluated policies."""
import contextlib, io
from fractions import Fraction
from typing import Dict
import numpy as np
from common import Driver
from skdecide import *
from skdecide.builders.discrete_optimization.generic_tools.do_problem import (Problem, Solution, ObjectiveRegister, ObjectiveHandling, ModeOptim, TypeObjective, EncodingRegister,
    ParamsObjectiveFunction, RobustProblem, MethodAggregating, BaseMethodAggregating, get_default_objective_setup, build_aggreg_function_and_params_objective, build_evaluate_function_aggregated)
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import KnapsackModel, KnapsackModel_Mobj, KnapsackSolution, Item
from skdecide.builders.discrete_optimization.coloring.coloring_model import ColoringProblem, ColoringSolution
from skdecide.builders.discrete_optimization.facility.facility_model import FacilityProblem2DPoints, FacilitySolution, Facility, Customer, Point
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import MultiModeRCPSPModel, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel_Variant, Employee, SkillDetail
from skdecide.hub.solver.policy_evaluators.policy_evaluator import (compute_expected_cost_for_policy, rollout_based_compute_expected_cost_for_policy,
    rollout_based_compute_expected_cost_for_policy_scheduling)
from skdecide.hub.domain.rcpsp import rcpsp_sk as R
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as A

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
BAD = -777777
HOW = {'single': ObjectiveHandling.SINGLE, 'sum': ObjectiveHandling.AGGREGATE, 'vector': ObjectiveHandling.MULTI_OBJ}
WOH = {v: k for k, v in HOW.items()}
AGG = dict(mean=BaseMethodAggregating.MEAN, median=BaseMethodAggregating.MEDIAN, percentile=BaseMethodAggregating.PERCENTILE, ponderation=BaseMethodAggregating.PONDERATION,
           min=BaseMethodAggregating.MIN, max=BaseMethodAggregating.MAX)
def whole(v):
    v = float(v); return int(round(v)) if abs(v - round(v)) < 1e-9 and abs(v) < 2 ** 30 else BAD
def frac(v):
    f = Fraction(float(v)).limit_denominator(1000)
    return [f.numerator, f.denominator] if abs(float(f) - float(v)) < 1e-9 * max(1, abs(float(v))) else [BAD, 1]
def fit(v):
    return [whole(x) for x in v.vector_fitness] if hasattr(v, 'vector_fitness') else [whole(v)]

class Sol(Solution):
    def __init__(self, k): self.k = k
    def copy(self): return Sol(self.k)
class Toy(Problem):
    """Evaluations given by a table."""
    def __init__(self, names, reg, how, sense, table, ok=True): self.names, self.reg, self.how, self.sense, self.table, self.ok = names, reg, how, sense, table, ok
    def evaluate(self, variable): return dict(self.table[variable.k])
    def satisfy(self, variable): return self.ok
    def get_solution_type(self): return Sol
    def get_attribute_register(self): return EncodingRegister({})
    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=self.sense, objective_handling=HOW[self.how], dict_objective_to_doc={n: dict(type=TypeObjective.OBJECTIVE, default_weight=w) for n, w in self.reg})

def toy(r, names, reg, how, sense, nsol):
    rows = []
    for _ in range(nsol):
        order = list(names); r.shuffle(order)
        rows.append({n: r.randint(-20, 30) if r.random() < .9 else float(r.randint(-9, 9)) for n in order})
    return Toy(names, reg, how, sense, rows)
def rand_reg(r):
    n = r.randint(1, 4); names = r.sample(['length', 'cost', 'Makespan', 'a', 'b2', 'zeta', 'violation'], n)
    dec = r.sample(names, r.randint(1, n))
    return names, [(x, r.choice([1, -1, 2, -3, 100, 0, -100])) for x in dec], r.choice(list(HOW)), r.choice(list(ModeOptim))

def default(tr, p, names):
    reg = p.get_objective_register(); par = quiet(get_default_objective_setup, p)
    doc = reg.dict_objective_to_doc
    tr.ev('default', objs=[names.index(o) + 1 for o in par.objectives], ws=[whole(w) for w in par.weights], how=WOH[par.objective_handling], sense=par.sense_function.name,
          dobjs=[names.index(o) + 1 for o in doc], dws=[whole(doc[o]['default_weight']) for o in doc], dhow=WOH[reg.objective_handling], dsense=reg.objective_sense.name)
    return par
def fits(tr, r, p, names, sols, par):
    f, g = quiet(build_evaluate_function_aggregated, p, par) if r.random() < .5 else quiet(build_aggreg_function_and_params_objective, p, par)[:2]
    if par is None: par = quiet(get_default_objective_setup, p)
    for s in sols:
        d = quiet(p.evaluate, s)
        tr.ev('fit', how=WOH[par.objective_handling], res=[whole(d[n]) if n in d else 0 for n in names], objs=[names.index(o) + 1 for o in par.objectives], ws=[whole(w) for w in par.weights],
              got=fit(quiet(f, s)), dict=fit(g(d)))
def chosen(r, names, sense):
    objs = r.sample(names, r.randint(1, len(names)))
    return ParamsObjectiveFunction(HOW[r.choice(list(HOW))], objs, [r.choice([1, -1, 2, -5, 0, 3]) for _ in objs], sense)

def fam_toy(tr, r):
    names, reg, how, sense = rand_reg(r)
    p = toy(r, names, reg, how, sense, 3); sols = [Sol(k) for k in range(3)]
    default(tr, p, names)
    for _ in range(3): fits(tr, r, p, names, sols, None if r.random() < .3 else chosen(r, names, sense))
    keys = sorted(n for n, _ in reg)
    for s in sols:
        d = p.evaluate(s)
        tr.ev('mobj', res=[whole(d[n]) for n in names], objs=[names.index(k) + 1 for k in keys], ws=[1] * len(keys), got=fit(p.evaluate_mobj(s)), dict=fit(p.evaluate_mobj_from_dict(d)))

def method(r, n):
    how = r.choice(list(AGG)); par = r.choice([0, 5, 10, 25, 50, 75, 90, 99, 100]); ws = [r.randint(0, 4) for _ in range(n)]
    kw = dict(percentile=par) if how == 'percentile' else dict(ponderation=np.array(ws)) if how == 'ponderation' else {}
    if how == 'percentile' and r.random() < .2: kw = {}; par = 90
    return how, par, ws, MethodAggregating(AGG[how], **kw)

def fam_robust(tr, r):
    names, reg, how, sense = rand_reg(r); n = r.randint(1, 5)
    ps = [toy(r, names, reg, how, sense, 2) for _ in range(n)]
    hw, par, ws, meth = method(r, n); p = RobustProblem(ps, meth)
    default(tr, p, names)
    for k in range(2):
        q = [[whole(x.table[k][o]) for x in ps] for o in names]
        v = p.evaluate(Sol(k))
        tr.ev('robust', how=hw, par=par, ws=ws, q=q, got=[frac(v[o]) for o in names])
        keys = sorted(o for o, _ in reg)
        tr.ev('robust', how=hw, par=par, ws=ws, q=[q[names.index(o)] for o in keys], got=[frac(x) for x in p.evaluate_mobj(Sol(k)).vector_fitness])
        c = chosen(r, names, sense); c.objective_handling = ObjectiveHandling.AGGREGATE
        f, g, _ = build_aggreg_function_and_params_objective(p, c)
        tr.ev('robustfit', how=hw, par=par, ws=ws, q=q, objs=[names.index(o) + 1 for o in c.objectives], fw=list(c.weights), got=frac(f(Sol(k))))

def bundled(r):
    k = r.randrange(5)
    if k < 2:
        n = r.randint(1, 5); cls = [KnapsackModel, KnapsackModel_Mobj][k]
        p = KnapsackModel([Item(i, r.randint(1, 9), r.randint(1, 6)) for i in range(n)], r.randint(3, 12))
        if k: p = KnapsackModel_Mobj.from_knapsack(p)
        return p, [KnapsackSolution(p, [r.randint(0, 1) for _ in range(n)]) for _ in range(3)]
    if k == 2:
        n = r.randint(2, 5); ns = ['n%d' % i for i in range(n)]
        p = ColoringProblem(Graph([(x, {}) for x in ns], [(a, b, {}) for a in ns for b in ns if a < b and r.random() < .5], undirected=True))
        return p, [ColoringSolution(p, [r.randrange(n) for _ in range(n)]) for _ in range(3)]
    if k == 3:
        f, c = r.randint(1, 3), r.randint(1, 4)
        p = FacilityProblem2DPoints(f, c, [Facility(i, r.randint(1, 9), r.randint(2, 6), Point(r.randint(0, 9), 0)) for i in range(f)], [Customer(i, r.randint(1, 3), Point(r.randint(0, 9), 0)) for i in range(c)])
        return p, [FacilitySolution(p, [r.randrange(f) for _ in range(c)]) for _ in range(3)]
    n = r.randint(1, 3); H = 30
    md = {j: {1: dict(duration=0 if j in (1, n + 2) else r.randint(1, 4), **({'S': r.randint(0, 1)} if 1 < j < n + 2 else {}))} for j in range(1, n + 3)}
    p = MS_RCPSPModel_Variant(skills_set={'S'}, resources_set=set(), non_renewable_resources=set(), resources_availability={}, employees={1: Employee({'S': SkillDetail(1, 0, 0)}, [True] * (H + 1))},
        employees_availability=[1] * (H + 1), mode_details=md, successors={j: list(range(max(j + 1, 2), n + 3)) if j == 1 else [n + 2] * (j < n + 2) for j in range(1, n + 3)}, horizon=H, horizon_multiplier=1)
    return p, [quiet(p.get_dummy_solution)]

def fam_bundled(tr, r):
    p, sols = bundled(r)
    names = sorted(set(p.get_objective_register().dict_objective_to_doc) | set(quiet(p.evaluate, sols[0])) - {'details'})
    tr.d['kind'] = type(p).__name__
    default(tr, p, names)
    for s in sols:
        d = quiet(p.evaluate, s)
        tr.ev('declared', objs=[names.index(o) + 1 for o in p.get_objective_register().dict_objective_to_doc], keys=[names.index(k) + 1 for k in d if k in names])
    fits(tr, r, p, names, sols, None); fits(tr, r, p, names, sols, chosen(r, [n for n in names if n in quiet(p.evaluate, sols[0])], ModeOptim.MAXIMIZATION))
    if type(p) is KnapsackModel_Mobj: objs, ws = ['value', 'heaviest_item'], [1, -1]
    elif isinstance(p, MS_RCPSPModel_Variant): objs, ws = ['makespan'], [-1]
    else: objs = sorted(p.get_objective_register().dict_objective_to_doc); ws = [1] * len(objs)
    for s in sols:
        d = quiet(p.evaluate, s)
        tr.ev('mobj', res=[whole(d.get(n, 0)) for n in names], objs=[names.index(k) + 1 for k in objs], ws=ws, got=fit(quiet(p.evaluate_mobj, s)), dict=fit(p.evaluate_mobj_from_dict(d)))

# ---------------------------------------------------------------- policies
class Base(GoalMDPDomain):
    T_state = int; T_observation = T_state; T_event = int; T_value = float; T_predicate = bool; T_info = None
class Mdp(Base):
    def __init__(self, g, s0, goal, stop, nxt, cost): self.g = g; self.s0, self.gs, self.st, self.nx, self.c = s0, goal, stop, nxt, cost
    def _get_initial_state_(self): return self.s0
    def _get_next_state_distribution(self, memory, action): return DiscreteDistribution([(t, w / self.g) for t, w in self.nx[memory][action]])
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=self.c[memory][action][next_state])
    def _is_terminal(self, state): return state in self.st
    def _get_action_space_(self): return None
    def _get_applicable_actions_from(self, memory): return None
    def _get_goals_(self):
        from skdecide.builders.domain import Goals
        return ImplicitSpace(lambda s: s in self.gs)
    def _get_observation_space_(self): return None
class Plan:
    def __init__(self, a): self.a = a
    def get_next_action(self, s): return self.a[s]

def fam_policy(tr, r):
    n = r.randint(1, 5); ng = r.randint(1, 2); nd = r.randint(0, 1); loop = r.random() < .25
    g = r.choice([4, 4, 32]); n = min(n, 4 if g == 32 else 5)
    goal, stop = set(range(n + 1, n + ng + 1)), set(range(n + 1, n + ng + nd + 1))
    nx, cost, plan = {}, {}, {}
    for s in range(1, n + 1):
        nx[s], cost[s] = {}, {}
        for a in (1, 2):
            to = [t for t in (range(s + 1, n + ng + nd + 1) if not loop else range(1, n + ng + nd + 1)) if t <= n + ng or r.random() < .4] or [n + 1]
            ws = r.choice([[4], [2, 2], [1, 3], [1, 1, 2], [4, 0], [0, 4], [2, 2, 0]])[:len(to)]
            if g == 32: ws = r.choice([[32], [2, 30], [16, 16], [1, 31], [1, 1, 30], [31, 0, 1]])[:len(to)]
            if sum(ws) != g: ws = [g]
            to = r.sample(to, len(ws)); nx[s][a] = list(zip(to, ws)); cost[s][a] = {t: r.randint(0, 5) for t in to}
        plan[s] = r.randint(1, 2)
    v, acts, preds, succs = compute_expected_cost_for_policy(Mdp(g, 1, goal, stop, nx, cost), Plan(plan))
    tr.ev('policy', g=g, s0=1, h=n, goal=sorted(goal), stop=sorted(stop), next=[[dict(to=t, w=w) for t, w in nx[s][plan[s]]] for s in range(1, n + 1)],
          cost=[[cost[s][plan[s]][t] for t, _ in nx[s][plan[s]]] for s in range(1, n + 1)], plan=[plan[s] for s in range(1, n + 1)],
          got=[[s, whole(x * g ** n)] for s, x in v.items()], acts=[[s, a] for s, a in acts.items()], preds=[[s, q] for s, qs in preds.items() for q in qs])

class Logged(R.Stochastic_RCPSP):
    log = None
    def get_transition_value(self, memory, action, next_state=None):
        v = super().get_transition_value(memory, action, next_state)
        if self.log is not None: self.log.append((str(memory), str(next_state), v.cost, next_state.t))
        return v
class Choice:
    """A fixed choice in every state."""
    def __init__(self, dom, r): self.dom, self.salt, self.memo = dom, r.random(), {}
    def get_next_action(self, s):
        k = str(s)
        if k not in self.memo:
            import random
            q = random.Random(str(self.salt) + k); el = self.dom.get_applicable_actions(s).get_elements()
            st = [a for a in el if a.action == A.START]
            self.memo[k] = q.choice(st) if st and q.random() < .8 else [a for a in el if a.time_progress][0]
        return self.memo[k]

def fam_rollouts(tr, r):
    from skdecide.builders.scheduling.modes import ConstantModeConsumption
    n = r.randint(1, 3); N = n + 2; ids = list(range(1, N + 1))
    law = {t: {1: DiscreteDistribution([(0, 1)] if t in (1, N) else [(d, 1 / 2) for d in r.sample(range(1, 4), 2)])} for t in ids}
    modes = {t: {1: ConstantModeConsumption({'R': 0 if t in (1, N) else r.randint(0, 2)})} for t in ids}
    succ = {1: ids[1:], N: []}; succ.update({t: [u for u in range(t + 1, N) if r.random() < .4] + [N] for t in range(2, N)})
    dom = Logged(resource_names=['R'], task_ids=ids, tasks_mode=modes, duration_distribution=law, successors=succ, max_horizon=60, resource_availability={'R': 2}, resource_renewable={'R': True})
    pol = Choice(dom, r); k = r.randint(1, 4)
    np.random.seed(r.randrange(10 ** 6))
    import random; random.seed(r.random())
    dom.log = []
    if r.random() < .6:
        v, acts, preds, succs = rollout_based_compute_expected_cost_for_policy(dom, pol, k)
        log, dom.log = dom.log, None
        start = str(dom.get_initial_state()); ix = {}
        def no(x): return ix.setdefault(x, len(ix) + 1)
        X = []
        for a, b, c, t in log:
            if a == start and (not X or X[-1][-1]['end']): X.append([])
            X[-1].append(dict(s=no(a), to=no(b), c=whole(c), end=a != b and False))
            if b not in [q[0] for q in log]: X[-1][-1]['end'] = True
        tr.ev('rollouts', n=k, X=[[dict(s=q['s'], to=q['to'], c=q['c']) for q in x] for x in X], got=[[no(str(s)), *frac(x)] for s, x in v.items()],
              links=[[no(str(s)), no(str(t))] for s, ts in succs.items() for t in ts], steady=all(pol.memo.get(str(s)) is a for s, a in acts.items()))
    else:
        before = dom.inplace_environment; s0 = str(dom.get_initial_state())
        v, _, _, _ = rollout_based_compute_expected_cost_for_policy_scheduling(dom, pol, k)
        log, dom.log = dom.log, None
        # an execution ends where the next one starts over
        ends, last = [], 0
        for i, (a, b, c, t) in enumerate(log):
            if i + 1 == len(log) or log[i + 1][3] < t or (t == 0 and False): ends.append(t)
        if all(x > 0 for x in ends):
            tr.ev('ends', n=k, q=[whole(x) for x in ends], got=frac(list(v.values())[0]))
        tr.ev('kept', same=dom.inplace_environment == before and str(list(v)[0]) == s0)

d = Driver()
for k in range(2500 if d.thorough else 400):
    r = d.rng('aggreg', k)
    d.run('toy', k, lambda tr: fam_toy(tr, r))
    d.run('robust', k, lambda tr: fam_robust(tr, r))
    d.run('policy', k, lambda tr: fam_policy(tr, r))
    if k % 2: d.run('bundled', k, lambda tr: fam_bundled(tr, r))
    else: d.run('rollouts', k, lambda tr: fam_rollouts(tr, r))
