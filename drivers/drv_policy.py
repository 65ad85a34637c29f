"""Scheduling policies asked in the states of executions: those they drive themselves, and others."""
import contextlib, copy, io, random
import stubs; stubs.install()
import numpy as np
with contextlib.redirect_stdout(io.StringIO()):
    from drv_sched import *
    from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as B
    from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
    from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy
    from skdecide.hub.solver.do_solver.do_solver_scheduling import DOSolver, SolvingMethod, from_solution_to_policy
    from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPSolution_Variant
    from skdecide import rollout_episode

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
RULE = {'gantt': [B.FOLLOW_GANTT], 'strict': [B.SGS_STRICT, B.SGS_PRECEDENCE], 'ready': [B.SGS_READY],
        'time': [B.SGS_TIME_FREEDOM], 'index': [B.SGS_INDEX_FREEDOM]}
PILE = {'most': GreedyChoice.MOST_SUCCESSORS, 'fast': GreedyChoice.FASTEST, 'sample': GreedyChoice.SAMPLE_MOST_SUCCESSORS, 'any': GreedyChoice.TOTALLY_RANDOM}

class Go(PolicyRCPSP):
    """Lets time pass with every start."""
    def _get_next_action(self, observation):
        a = super()._get_next_action(observation)
        a.time_progress = True
        return a
class Run:
    """One domain and the policies tried on it."""
    def __init__(self, tr, dom, I, N, r):
        self.tr, self.dom, self.I, self.N, self.r = tr, dom, I, N, r
        self.P, self.pol = [], []
        tr.d['P'] = self.P; tr.d['J'] = I
        self.w = 6 * sum(max(x[0] for x in m) for t in I['dist'] for m in t) + 30
    def add(self, rule, pol, perm=(), mode=None, sch=(), crew=None, dt=0, di=0):
        n = self.I['n']
        self.P.append(dict(rule=rule, perm=[int(x) for x in perm], mode=mode or [1] * n, sch=[int(x) for x in sch], crew=crew or [[]] * n, dt=dt, di=di, go=isinstance(pol, Go)))
        self.pol.append(pol)
        return len(self.P)
    def sgs(self, rule, perm, mode, sch=(), crew=None, dt=0, di=0, dom=None, cls=PolicyRCPSP):
        N = self.N; ids = N.ids
        kw = {}
        if sch: kw['schedule'] = {ids[k]: {'start_time': sch[k], 'end_time': sch[k]} for k in range(self.I['n'])}
        if crew: kw['resource_allocation'] = {ids[k]: [N.res[u - 1] for u in crew[k]] for k in range(self.I['n']) if crew[k] or self.r.random() < .5}
        p = cls(domain=dom or self.dom, policy_method_params=PolicyMethodParams(self.r.choice(RULE[rule]), dt, di),
                        permutation_task=[ids[k - 1] for k in perm], modes_dictionnary={ids[k]: mode[k] for k in range(self.I['n'])}, **kw)
        return self.add(rule, p, perm, mode, sch, crew, dt, di)
    def pile(self, rule):
        p = PilePolicy(PILE[rule])
        quiet(p.solve, lambda: self.dom)
        return self.add(rule, p)
    def ask(self, i, s, rec=True):
        b = state_rec(s, self.I, self.N)
        a = self.pol[i - 1].get_next_action(s)
        self.tr.ev('ask', p=i, s=b, a=act_rec(a, self.N, True), same=b == state_rec(s, self.I, self.N))
        return a
    def drive(self, i, others=()):
        """The policy drives the domain to its end; others are asked on the way."""
        s = self.dom.reset()
        for step in range(400):
            if s.t > self.w or term_of(self.dom, s): break
            for o in others: self.ask(o, s)
            a = self.ask(i, s)
            s = self.dom.step(a).observation
        self.tr.ev('end', p=i, s=state_rec(s, self.I, self.N))
        return s
    def roll(self, i):
        """The same through the library's own rollout."""
        st, ac, va = quiet(rollout_episode, domain=self.dom, solver=self.pol[i - 1], max_steps=400, outcome_formatter=None, action_formatter=None)
        for x, a in zip(st, ac):
            self.tr.ev('ask', p=i, s=state_rec(x, self.I, self.N), a=act_rec(a, self.N, True), same=True)
        self.tr.ev('end', p=i, s=state_rec(st[-1], self.I, self.N))
    def wander(self, pols, steps):
        """Any execution, with every policy asked in each of its states."""
        s = self.dom.reset(); r = self.r
        for step in range(steps):
            if term_of(self.dom, s): break
            for o in pols: self.ask(o, s)
            sp = self.dom.get_applicable_actions(s)
            acts = [sp.sample() for _ in range(6)] if is_units(self.dom) else list(sp.get_elements())
            go = [a for a in acts if a.action != E.TIME_PR]
            a = r.choice(go) if go and r.random() < .6 else SchedulingAction(task=None, action=E.TIME_PR, mode=None, time_progress=True)
            s = self.dom.step(a).observation

def topo(I, r):
    """An order of the tasks; mostly one that respects precedence."""
    n = I['n']; left = set(range(1, n + 1)); out = []
    while left:
        f = sorted(k for k in left if not any(p in left for p in I['preds'][k - 1]))
        k = r.choice(f); out.append(k); left.remove(k)
    return out
def anyperm(I, r):
    p = list(range(1, I['n'] + 1))
    if r.random() < .4: return topo(I, r)
    r.shuffle(p); return p
def crew_for(I, mode, r):
    """Units for every task: enough qualified ones, mostly."""
    nt, m = I['nt'], I['m']; out = []
    for k in range(I['n']):
        need = I['tsk'][k][mode[k] - 1]; us = list(range(nt + 1, m + 1)); r.shuffle(us); c = []
        if any(need):
            for u in us:
                lack = [q for q in range(I['nk']) if need[q] > sum(I['rsk'][x - 1][q] for x in c)]
                if not lack and r.random() < .8: break
                if any(I['rsk'][u - 1][q] for q in lack) or r.random() < .2: c.append(u)
        out.append(sorted(c))
    return out
def inst(r, big=True, **kw):
    I = rand_inst(r, **kw)
    if big and r.random() < .85:
        I['hor'] = 2 * sum(max(x[0] for m in t for x in m) for t in I['dist']) + r.randint(1, 4)
        for t in I['need']:
            for m in t:
                for i in range(I['nt']): m[i] = [min(x, max(I['avail'][i])) for x in m[i]]
        for i, q in enumerate(I['avail']):
            if len(q) > 1: I['avail'][i] = (q * 40)[:I['hor'] + 4]
    return I

DOMS = [('RCPSP', dict(modes=1, nonren=False)), ('MRCPSP', dict(nonren=False)), ('MRCPSP', {}), ('MRCPSPCalendar', dict(calendar=True)),
        ('RCPSPCalendar', dict(modes=1, nonren=False, calendar=True)), ('Stochastic_RCPSP', dict(nonren=False, uncertain=True)),
        (EnumDur, dict(uncertain=True, nonren=False)), (StochSingle, dict(uncertain=True, modes=1, nonren=False)),
        ('MSRCPSP', dict(skills=True, nonren=False)), ('MSRCPSPCalendar', dict(skills=True, calendar=True, nonren=False)),
        (PreemptiveConst, dict(preempt=True, dummies=False)), (SkillConst, dict(skills=True, nonren=False)), (WithCost, dict(costs=True))]

def sgs_family(tr, what, I, r, D):
    random.seed(r.random()); np.random.seed(r.randrange(2 ** 31))
    I['orig'] = [[d[0][0] for d in t] for t in I['dist']]
    dom, N = make(what, I, r)
    R = Run(tr, dom, I, N, r); n = I['n']
    mode = [r.randint(1, len(q)) for q in I['need']]
    crew = crew_for(I, mode, r) if I['nk'] else None
    first = R.sgs('ready', anyperm(I, r), mode, crew=crew)
    f = R.drive(first)
    dates = [-1 if f.tasks_details[t].start is None else int(f.tasks_details[t].start) for t in N.ids]
    plans = []
    if min(dates) >= 0:
        plans = [dates, [2 * x for x in dates]]
    noisy = [max(0, x) + r.randint(0, 3) for x in dates]
    plans.append(noisy); plans.append([r.randint(0, 6) for _ in dates])
    ps = []
    for q in plans:
        order = sorted(range(1, n + 1), key=lambda k: (q[k - 1], k)) if r.random() < .6 else anyperm(I, r)
        ps.append(R.sgs('gantt', order, mode, q, crew))
        for rule in r.sample(['strict', 'time', 'index', 'ready', 'strict'], 3):
            ps.append(R.sgs(rule, order if r.random() < .7 else anyperm(I, r), mode, q if rule == 'time' or r.random() < .6 else (), crew, dt=r.randint(0, 4), di=r.randint(0, 3)))
    ps.append(R.sgs('index', anyperm(I, r), mode, (), crew, di=r.randint(0, 2)))
    ps.append(R.sgs('strict', anyperm(I, r), mode, (), crew))
    for p in ps: R.drive(p, others=r.sample(ps, 2) if r.random() < .3 else ())
    R.wander(ps, 14)
    R.roll(r.choice(ps))
    if not I['nk']:
        qs = [R.pile(x) for x in PILE]
        for q in qs: R.drive(q)
        R.wander(qs, 10)

def meta_family(tr, what, I, r, D):
    random.seed(r.random())
    I['orig'] = [[d[0][0] for d in t] for t in I['dist']]
    J = copy.deepcopy(I)
    if r.random() < .5:
        for t in J['dist']:
            for m in t:
                if m[0][0]: m[0][0] = r.randint(1, 3)
        J['hor'] += 3 * I['n']
    N = Names(I)
    dom, known = (hub(what, I, N), hub(what, J, N)) if isinstance(what, str) else (what(I, N), what(J, N))
    R = Run(tr, dom, I, N, r); tr.d['J'] = J
    mode = [r.randint(1, len(q)) for q in I['need']]
    ps = []
    for k in range(r.randint(1, 3)):
        perm = anyperm(I, r); q = [r.randint(0, 6) for _ in perm]
        rule = r.choice(['ready', 'strict', 'time', 'index'])
        ps.append(R.sgs(rule, perm, mode, q if rule == 'time' or r.random() < .3 else (), dt=r.randint(0, 2), di=r.randint(0, 2), dom=r.choice([dom, known]) if I['avail'] == J['avail'] else known, cls=Go if r.random() < .3 else PolicyRCPSP))
    if r.random() < .5:
        ps.append(R.pile(r.choice(['most', 'fast'])))
        if R.P[-1]['rule'] == 'fast' and I['dist'] != J['dist']:
            ps.pop(); R.P.pop(); R.pol.pop()
    # ties among greedy choices are broken by the enumeration of the tasks: their length is then not determined
    exact = all(R.P[i - 1]['rule'] in RULE for i in ps)
    mp = MetaPolicy({('p', i): R.pol[i - 1] for i in ps}, dom, known, nb_rollout_estimation=r.choice([1, 1, 2]), verbose=False)
    s = dom.reset()
    for step in range(60):
        if term_of(dom, s): break
        b = state_rec(s, I, N)
        a = quiet(mp.get_next_action, s)
        tr.ev('meta', ps=ps, s=b, a=act_rec(a, N, True), same=b == state_rec(s, I, N), exact=exact)
        s = dom.step(a).observation

def able(I):
    """Every task can run alone."""
    return all(max(x) <= min(I['avail'][i]) for t in I['need'] for m in t for i, x in enumerate(m))
def plan_family(tr, what, I, r, D):
    """Solutions of the optimisation problem become policies that carry them out."""
    random.seed(r.random())
    I['orig'] = [[d[0][0] for d in t] for t in I['dist']]
    N = Names(I)
    dom = hub(what, I, N)
    R = Run(tr, dom, I, N, r); n = I['n']
    m = quiet(build_do_domain, dom)
    for rep in range(3):
        perm = list(range(n - 2)); r.shuffle(perm)
        modes = [r.randint(1, len(I['need'][k])) for k in range(1, n - 1)]
        crew = None
        solver = None
        if what.startswith('MS'):
            emp = len(m.employees)
            pr = [r.sample(list(range(emp)), emp) for _ in range(n - 2)]
            sol = quiet(MS_RCPSPSolution_Variant, problem=m, modes_vector=list(modes), priority_list_task=list(perm), priority_worker_per_task=pr)
            if not sol.schedule or len(sol.schedule) < n or not quiet(m.satisfy, sol): continue
            sch = [sol.schedule[k + 1]['start_time'] for k in range(n)]
            names = sorted(N.res[I['nt']:])
            crew = [sorted(N.rx[names[e]] + 1 for e in sol.employee_usage.get(k + 1, {})) for k in range(n)]
        else:
            if rep == 2 and what == 'RCPSP' and able(I):
                solver = DOSolver(policy_method_params=PolicyMethodParams(B.FOLLOW_GANTT), method=SolvingMethod.PILE)
                quiet(solver.solve, lambda: dom)
                sol = solver.best_solution
                modes = [1] * (n - 2)
            else:
                sol = RCPSPSolution(problem=m, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
            if not sol.rcpsp_schedule_feasible or not quiet(m.satisfy, sol): continue
            sch = [sol.rcpsp_schedule[k + 1]['start_time'] for k in range(n)]
        mode = [1] + modes + [1]
        order = sorted(range(1, n + 1), key=lambda k: (sch[k - 1], k))
        for rule in ('gantt', 'strict', 'time', 'index', 'ready'):
            dt, di = r.randint(0, 3), r.randint(0, 3)
            par = PolicyMethodParams(r.choice(RULE[rule]), dt, di)
            pol = from_solution_to_policy(sol, dom, par) if solver is None else solver if rule == 'gantt' else solver.compute_external_policy(par)
            R.drive(R.add(rule, pol, order, mode, sch, crew, dt, di))

def main():
    D = Driver()
    k = 14 if D.thorough else 3
    for what, kw in DOMS:
        name = what if isinstance(what, str) else what.__name__
        for j in range(2 * k):
            r = D.rng('sgs', name, len(kw), j)
            I = inst(r, **kw)
            D.run('sgs', '%s-%d-%d' % (name, len(kw), j), lambda tr, I=I, w=what, r=r: sgs_family(tr, w, I, r, D), inst=I)
    for what, kw in [('RCPSP', dict(modes=1, nonren=False)), ('MRCPSP', dict(nonren=False)), (PreemptiveConst, dict(dummies=False, nonren=False))]:
        name = what if isinstance(what, str) else what.__name__
        for j in range(5 * k):
            r = D.rng('meta', name, j); I = inst(r, **kw)
            D.run('meta', '%s-%d' % (name, j), lambda tr, I=I, w=what, r=r: meta_family(tr, w, I, r, D), inst=I)
    for what, kw in [('RCPSP', dict(modes=1, nonren=False)), ('MRCPSP', {}), ('MRCPSPCalendar', dict(calendar=True)), ('MSRCPSP', dict(skills=True)), ('MSRCPSPCalendar', dict(skills=True, calendar=True))]:
        for j in range(4 * k):
            r = D.rng('plan', what, j); I = inst(r, zero=0. if j % 4 else .2, **kw)
            D.run('plan', '%s-%d' % (what, j), lambda tr, I=I, w=what, r=r: plan_family(tr, w, I, r, D), inst=I)
main()
