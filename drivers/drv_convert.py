"""Scheduling domains turned into optimisation problems and back; executions turned into solutions."""
import contextlib, io, random
from fractions import Fraction
from common import Driver
from skdecide import DiscreteDistribution
from skdecide.builders.scheduling.scheduling_domains import (SingleModeRCPSP, SingleModeRCPSPCalendar, SingleModeRCPSP_Stochastic_Durations,
    MultiModeRCPSPWithCost)
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as A
from skdecide.builders.scheduling.scheduling_domains import SchedulingObjectiveEnum
from skdecide.builders.scheduling.modes import ConstantModeConsumption
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, SingleModeRCPSPModel, MultiModeRCPSPModel, RCPSPModelCalendar, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import MS_RCPSPModel, MS_RCPSPModel_Variant, Employee, SkillDetail, MS_RCPSPSolution
from skdecide.hub.domain.rcpsp import rcpsp_sk as R
from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain, build_sk_domain, from_last_state_to_solution

BAD = -777777
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)

class Proj:
    def __init__(self, r, skills=False, cal=False, single=False, roomy=False):
        n = r.randint(1, 4); self.N = N = n + 2
        Rn, S, E = r.randint(1, 2) if not skills else r.randint(0, 2), r.randint(1, 2) if skills else 0, r.randint(1, 3) if skills else 0
        self.res = ['R%d' % (k + 1) for k in range(Rn)]; self.sk = ['S%d' % (k + 1) for k in range(S)]
        pool = ['w%d' % k for k in (10, 2, 7, 1)]; r.shuffle(pool)
        self.units = pool[:E]
        self.nr = [k for k in range(Rn) if r.random() < .35]
        self.cal = cal
        zero = r.random() < .3; dmax = r.choice([2, 3, 5])
        cap = [r.randint(1, 4) for _ in range(Rn)]
        sval = [[r.choice([0, 0, 1, 1, 2]) for _ in range(S)] for _ in range(E)]
        tot = [sum(sval[e][k] for e in range(E)) for k in range(S)]
        def mode():
            d = 0 if zero and r.random() < .25 else r.randint(1, dmax)
            m = dict(duration=d, **{x: r.randint(0, min(3, cap[k])) if d and r.random() < .7 else 0 for k, x in enumerate(self.res)})
            for k, x in enumerate(self.sk):
                v = r.randint(0, min(3, tot[k])) if d and r.random() < .6 else 0
                if v or r.random() < .5: m[x] = v
            return m
        zerom = lambda: dict(duration=0, **{x: 0 for x in self.res})
        self.md = {1: {1: zerom()}}
        for i in range(2, N):
            mi = [1]
            if not single and r.random() < .6: mi = [1] + sorted(r.sample(range(2, 5), r.randint(1, 2)))
            self.md[i] = {m: mode() for m in mi}
        self.md[N] = {1: zerom()}
        topo = list(range(2, N)); p = r.choice([.2, .5])
        if r.random() < .4: r.shuffle(topo)
        self.succ = {1: list(range(2, N + 1))}
        for a, i in enumerate(topo): self.succ[i] = [j for j in topo[a + 1:] if r.random() < p] + [N]
        self.succ[N] = []
        work = sum(max(m['duration'] for m in self.md[k].values()) for k in self.md)
        self.H = max(3, 2 * work + r.randint(2, 6) if not roomy else 6 * work + 12)
        for k in self.nr:
            t = sum(max(m[self.res[k]] for m in self.md[q].values()) for q in self.md)
            cap[k] = max(1, t)
        L = self.H + r.choice([1, 1, 2, 3])
        vary = cal and r.random() < .7
        def row(lo, top, p):
            out = []
            while len(out) < L: out += [r.randint(lo, top) if vary and r.random() < p else top] * r.randint(1, 4)
            return out[:L]
        self.cap = [[cap[k]] * L if k in self.nr else row(0 if r.random() < .3 else max(1, cap[k] - 1), cap[k], .4) for k in range(Rn)]
        self.emp = [(sval[e], row(0, 1, .25)) for e in range(E)]
        self.const = all(len(set(q)) == 1 for q in self.cap) and all(len(set(c)) == 1 for _, c in self.emp)
    def relevant(self):
        return {x for k, x in enumerate(self.sk) if any(sv[k] for sv, _ in self.emp) or any(m.get(x, 0) for q in self.md.values() for m in q.values())}
    def mlist(self, md=None):
        md = md or self.md
        return [[dict(id=m, dur=int(md[t][m]['duration']), need=[int(md[t][m].get(x, 0)) for x in self.res], skill=[int(md[t][m].get(x, 0)) for x in self.sk]) for m in sorted(md[t])]
                for t in range(1, self.N + 1)]
    def spec(self):
        return dict(N=self.N, S=len(self.sk), H=self.H, nr=[k + 1 for k in self.nr], cap=self.cap, modes=self.mlist(), succ=[self.succ[k] for k in range(1, self.N + 1)],
                    emp=[dict(has=[v > 0 for v in sv], val=list(sv), cal=[c > 0 for c in cal]) for sv, cal in self.emp])
    # --- the repository's objects
    def dom(self, kind, r):
        ids = list(range(1, self.N + 1)); md = {t: {m: dict(v) for m, v in q.items()} for t, q in self.md.items()}
        succ = {k: list(v) for k, v in self.succ.items()}
        ren = {x: k not in self.nr for k, x in enumerate(self.res)}
        av = {x: list(self.cap[k]) if self.cal else self.cap[k][0] for k, x in enumerate(self.res)}
        order = list(self.res); r.shuffle(order)
        kw = dict(task_ids=ids, tasks_mode=md, successors=succ, max_horizon=self.H)
        if self.sk:
            rs = {x: {} for x in self.res}
            for e, u in enumerate(self.units):
                rs[u] = {x: v for x, v in zip(self.sk, self.emp[e][0]) if v or r.random() < .3}
                av[u] = list(self.emp[e][1]) if self.cal else 1; ren[u] = True
            un = list(self.units); r.shuffle(un)
            c = R.MSRCPSPCalendar if self.cal else R.MSRCPSP
            return c(skills_names=list(self.sk), resource_unit_names=un, resource_type_names=order, resource_skills=rs, resource_availability=av, resource_renewable=ren, **kw)
        c = dict(RCPSP=R.RCPSP, MRCPSP=R.MRCPSP, RCPSPCalendar=R.RCPSPCalendar, MRCPSPCalendar=R.MRCPSPCalendar).get(kind) or OWN[kind]
        return c(resource_names=order, resource_availability=av, resource_renewable=ren, **kw)
    def do(self, r, mult=1):
        md = {t: {m: dict(v) for m, v in q.items()} for t, q in self.md.items()}
        succ = {k: list(v) for k, v in self.succ.items()}; nr = [self.res[k] for k in self.nr]
        if self.sk:
            self.ids = r.sample(range(13), len(self.units)); self.units = [str(i) for i in self.ids]
            emps = list(zip(self.ids, self.emp)); r.shuffle(emps)
            return r.choice([MS_RCPSPModel, MS_RCPSPModel_Variant])(skills_set=set(self.sk), resources_set=set(self.res), non_renewable_resources=set(nr),
                resources_availability={x: list(self.cap[k]) for k, x in enumerate(self.res)},
                employees={i: Employee({x: SkillDetail(v, 0, 0) for x, v in zip(self.sk, sv) if v or r.random() < .3}, [c > 0 for c in cal]) for i, (sv, cal) in emps},
                employees_availability=[sum(c[t] for _, c in self.emp) for t in range(len(self.emp[0][1]))], mode_details=md, successors=succ, horizon=self.H, horizon_multiplier=1)
        kw = dict(non_renewable_resources=nr, mode_details=md, successors=succ, horizon=self.H // mult, horizon_multiplier=mult)
        order = list(enumerate(self.res)); r.shuffle(order)
        if self.cal: return RCPSPModelCalendar(resources={x: list(self.cap[k]) for k, x in order}, **kw)
        single = all(list(q) == [1] for q in self.md.values())
        c = r.choice([MultiModeRCPSPModel, RCPSPModel] + ([SingleModeRCPSPModel] * 2 if single else []))
        return c(resources={x: self.cap[k][0] for k, x in order}, **kw)

class Own:
    def __init__(self, resource_names, resource_availability, resource_renewable, task_ids, tasks_mode, successors, max_horizon):
        self.rn, self.av, self.ren, self.ids, self.su, self.h = resource_names, resource_availability, resource_renewable, task_ids, successors, max_horizon
        self.tm = tasks_mode
        self.mm = {t: {m: ConstantModeConsumption({x: tasks_mode[t][m][x] for x in resource_names}) for m in tasks_mode[t]} for t in tasks_mode}
        self.law = {t: {m: [(v['duration'], 1)] for m, v in q.items()} for t, q in tasks_mode.items()}
        self.initialize_domain()
    def _get_resource_renewability(self): return self.ren
    def _get_max_horizon(self): return self.h
    def _get_successors(self): return self.su
    def _get_tasks_ids(self): return self.ids
    def _get_tasks_mode(self): return {t: self.mm[t][1] for t in self.mm}
    def _get_tasks_modes(self): return self.mm
    def _get_resource_types_names(self): return self.rn
    def _get_objectives(self): return [SchedulingObjectiveEnum.MAKESPAN]
    def _get_original_quantity_resource(self, resource, **k): return self.av[resource] if not isinstance(self.av[resource], list) else max(self.av[resource])
    def _get_task_duration(self, task, mode=1, progress_from=0.): return self.tm[task][mode]['duration']
class Single(Own, SingleModeRCPSP): pass
class SingleCal(Own, SingleModeRCPSPCalendar):
    def _get_quantity_resource(self, resource, time, **k): return self.av[resource][time]
class Cost(Own, MultiModeRCPSPWithCost):
    def _get_mode_costs(self): return {t: {m: 1. for m in q} for t, q in self.mm.items()}
    def _get_resource_cost_per_time_unit(self): return {r: 1. for r in self.rn}
class SingleSto(Own, SingleModeRCPSP_Stochastic_Durations):
    def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
        return DiscreteDistribution([(d, w / sum(y for _, y in self.law[task][mode])) for d, w in self.law[task][mode]])
OWN = dict(Single=Single, SingleCal=SingleCal, Cost=Cost, SingleSto=SingleSto)

# ---------------------------------------------------------------- what they say
def of_do(P, m, units):
    """units: names of the employees of P, in the order of P, as the problem identifies them."""
    H = int(m.horizon) * int(m.horizon_multiplier)
    def cal(q): return [int(x) for x in q] if hasattr(q, '__len__') else [int(q)] * (H + 1)
    avail = m.resources_availability if isinstance(m, MS_RCPSPModel) else m.resources
    d = dict(N=len(m.mode_details) if set(m.mode_details) == set(range(1, P.N + 1)) else BAD, H=H, S=len(P.sk), nr=sorted(P.res.index(x) + 1 for x in m.non_renewable_resources if x in P.res),
             cap=[cal(avail[x]) for x in P.res] if set(avail) == set(P.res) else [], modes=P.mlist(m.mode_details), succ=[list(m.successors[k]) for k in range(1, P.N + 1)], emp=[])
    if isinstance(m, MS_RCPSPModel):
        if not P.relevant() <= set(m.skills_set) <= set(P.sk): d['S'] = BAD
        if set(m.employees) == set(units):
            d['emp'] = [dict(has=[x in m.employees[u].dict_skill for x in P.sk], val=[int(m.employees[u].dict_skill[x].skill_value) if x in m.employees[u].dict_skill else 0 for x in P.sk],
                         cal=[bool(c) for c in m.employees[u].calendar_employee]) for u in units]
    return d
def of_dom(P, d, units, dur=True):
    H = int(d.get_max_horizon()); ids = sorted(d.get_tasks_ids()); tm = d.get_tasks_modes()
    ren = d.get_resource_renewability()
    def q(r): return [int(d.get_quantity_resource(r, time=t)) for t in range(H + 1)]
    ms = bool(P.sk)
    out = dict(N=len(ids) if ids == list(range(1, P.N + 1)) else BAD, H=H, S=len(P.sk), nr=[k + 1 for k, x in enumerate(P.res) if not ren[x]],
               cap=[q(x) for x in P.res] if set(d.get_resource_types_names()) == set(P.res) else [], succ=[list(d.get_successors()[k]) for k in ids], emp=[], modes=[])
    for t in ids:
        row = []
        for m in sorted(tm[t]):
            sk = d.get_skills_of_task(task=t, mode=m) if ms else {}
            names = tm[t][m].get_ressource_names()
            row.append(dict(id=m, dur=int(d.get_task_duration(task=t, mode=m)) if dur else 0, need=[int(tm[t][m].get_resource_need_at_time(x, time=0)) if x in names else 0 for x in P.res],
                            skill=[int(sk.get(x, 0)) for x in P.sk]))
        out['modes'].append(row)
    if ms:
        if not P.relevant() <= set(d.get_skills_names()) <= set(P.sk): out['S'] = BAD
        if set(d.get_resource_units_names()) == set(units) and all(ren[u] for u in units):
            for u in units:
                s = d.get_skills_of_resource(resource=u)
                out['emp'].append(dict(has=[x in s for x in P.sk], val=[int(s.get(x, 0)) for x in P.sk], cal=[c > 0 for c in q(u)]))
    return out
def laws(d, P):
    """Distributions of the durations, in twenty-firsts when even."""
    out = []
    for t in range(1, P.N + 1):
        row = []
        for m in sorted(d.get_tasks_modes()[t]):
            acc = {}
            for x, p in d.get_task_duration_distribution(t, m).get_values(): acc[int(x)] = acc.get(int(x), 0.) + p
            row.append(sorted([x, 1 if len(acc) == 1 else int(round(p * 21 * 1000)) // 1000 if abs(p * 21 - round(p * 21)) < 1e-6 else BAD] for x, p in acc.items()))
        out.append(row)
    return out

def pick_proj(r, **kw):
    kind = r.choice(['RCPSP', 'MRCPSP', 'RCPSPCalendar', 'MRCPSPCalendar', 'MS', 'MS', 'MSCalendar', 'MSCalendar', 'Single', 'SingleCal', 'Cost'])
    P = Proj(r, skills=kind.startswith('MS'), cal='Cal' in kind, single=kind in ('RCPSP', 'RCPSPCalendar', 'Single', 'SingleCal'), **kw)
    return kind, P

def chain(tr, r):
    kind, P = pick_proj(r); tr.d['kind'] = kind
    units = None
    if r.random() < .5:
        x = P.dom(kind, r); units = list(P.units); side = 'dom'
    else:
        mult = r.choice([1, 1, 2, 3]) if not P.sk else 1
        P.H = P.H // mult * mult
        x = P.do(r, mult); units = list(P.ids) if P.sk else []; side = 'do'
    tr.d['I'] = [P.spec()]
    vary = P.cal
    for _ in range(r.randint(1, 4)):
        if side == 'dom':
            x = quiet(build_do_domain, x); side = 'do'
            so = sorted(units); units = [so.index(u) for u in units] if P.sk else []
            tr.ev('problem', got=of_do(P, x, units))
        else:
            v = True if P.sk and not P.const else r.random() < (.8 if vary else .5)
            x = quiet(build_sk_domain, x, v); side = 'dom'; units = [str(u) for u in units]
            tr.ev('domain', varying=v if (P.cal or P.sk) else True, got=of_dom(P, x, units))

def uncertain(tr, r):
    if r.random() < .3:
        P = Proj(r, single=True); d = P.dom('SingleSto', r); tr.d['I'] = [P.spec()]
        for t in range(2, P.N):
            if r.random() < .7: d.law[t][1] = [(x, r.randint(1, 3)) for x in sorted(r.sample(range(0, 7), r.randint(1, 3)))]
        tr.ev('lawis', law=[[[list(x) for x in d.law[t][1]]] for t in range(1, P.N + 1)])
        tr.ev('settled', got=of_do(P, build_do_domain(d), []))
        return
    P = Proj(r); d = P.dom('MRCPSP', r); tr.d['I'] = [P.spec()]
    if r.random() < .4:
        x = build_do_domain(d); tr.ev('problem', got=of_do(P, x, [])); d = build_sk_domain(x); tr.ev('domain', varying=True, got=of_dom(P, d, []))
    noisy = None if r.random() < .4 else {t for t in range(1, P.N + 1) if r.random() < .5}
    s = R.build_stochastic_from_deterministic(d, noisy)
    tr.ev('uncertain', noisy=[noisy is None or t in noisy for t in range(1, P.N + 1)], got=of_dom(P, s, [], False), law=laws(s, P))
    for q in R.build_n_determinist_from_stochastic(s, r.randint(1, 3)):
        tr.ev('settled', got=of_dom(P, q, []))
        if r.random() < .3: tr.ev('settled', got=of_do(P, build_do_domain(q), []))

def execute(tr, r):
    kind, P = pick_proj(r, roomy=True); tr.d['kind'] = kind
    if r.random() < .6: d = P.dom(kind, r); units = list(P.units); tr.d['I'] = [P.spec()]
    else:
        m = P.do(r); tr.d['I'] = [P.spec()]
        v = True if P.sk and not P.const else r.random() < .6
        d = quiet(build_sk_domain, m, v); units = list(P.units)
        tr.ev('domain', varying=v if (P.cal or P.sk) else True, got=of_dom(P, d, units))
    s = d.get_initial_state(); acts = []; lazy = r.random() * .6
    for _ in range(400):
        if not s.tasks_remaining and not s.tasks_ongoing or d.is_terminal(s): break
        Ac = d.get_applicable_actions(s)
        if hasattr(Ac, 'get_elements'):
            el = Ac.get_elements(); st = [a for a in el if a.action == A.START]
            a = r.choice(st) if st and r.random() > lazy else r.choice([a for a in el if a.time_progress])
        else:
            random.seed(r.random())
            a = Ac.sample()
            for _ in range(8):
                if not a.time_progress or r.random() < lazy: break
                a = Ac.sample()
        if a.action == A.START: acts.append(dict(k=a.task, t=int(s.t), m=a.mode, units=[units.index(u) + 1 for u in (a.resource_unit_names or [])]))
        s = d.get_next_state(s, a)
    if s.tasks_remaining or s.tasks_ongoing: return
    x = quiet(from_last_state_to_solution, s, d); so = sorted(units)
    if P.sk:
        if not isinstance(x, MS_RCPSPSolution): tr.exc('solution', 'no multi-skill solution: ' + type(x).__name__); return
        sch, modes = x.schedule, [x.modes.get(k, BAD) for k in range(2, P.N)]
        use = [dict(k=k, w=units.index(so[w]) + 1, x=P.sk.index(y) + 1 if y else 0) for k, q in x.employee_usage.items() for w, ys in q.items() for y in (sorted(ys) or [None])]
    else: sch, modes, use = x.rcpsp_schedule, [int(m) for m in x.rcpsp_modes], []
    ok = bool(quiet(x.problem.satisfy, x)); v = quiet(x.problem.evaluate, x)
    tr.ev('run', acts=acts, sched=[dict(k=k, s=int(q['start_time']), e=int(q['end_time'])) for k, q in sch.items()], modes=modes, use=use, ok=ok, mk=int(v['makespan']))

d = Driver()
for k in range(2400 if d.thorough else 420):
    r = d.rng('convert', k)
    d.run('chain', k, lambda tr: chain(tr, r))
    d.run('execute', k, lambda tr: execute(tr, r))
    if k % 2 == 0: d.run('uncertain', k, lambda tr: uncertain(tr, r))
