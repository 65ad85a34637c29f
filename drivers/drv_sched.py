"""Executes scheduling domains of the repository and records every state, offer, value and distribution."""
import copy, random
from enum import Enum
from common import Driver, err
from skdecide import DiscreteDistribution
from skdecide.builders.domain import *
from skdecide.builders.scheduling.scheduling_domains import *
from skdecide.builders.scheduling.scheduling_domains import SchedulingDomain, UncertainSchedulingDomain, \
    DeterministicSchedulingDomain, SchedulingActionSpaceWithResourceUnit
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as E
from skdecide.builders.scheduling.modes import ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.preemptivity import ResumeType
from skdecide.builders.scheduling.task_duration import UniformBoundedTaskDuration, EnumerableTaskDuration
from skdecide.hub.domain.rcpsp import rcpsp_sk as R

# ---------------------------------------------------------------- instances
def rand_inst(r, n=None, maxdur=3, modes=2, nt=None, nonren=True, dummies=True, calendar=False, varying=False,
              preempt=False, uncertain=False, conditional=False, skills=False, costs=False, tight=None, zero=0.1):
    n = n or r.randint(3, 6)
    nt = nt or r.randint(1, 2)
    nu = r.randint(1, 3) if skills else 0
    nk = r.randint(1, 2) if skills else 0
    m = nt + nu
    hor = r.choice([n * maxdur, n * maxdur, n + 2, 4])
    ren = [True] + [not nonren or r.random() < 0.5 for _ in range(nt - 1)] + [True] * nu
    cap = [r.randint(1, 3) if ren[i] else r.randint(1, 5) for i in range(nt)] + [1] * nu
    need, dist = [], []
    for t in range(n):
        dm = dummies and t in (0, n - 1)
        nm = 1 if dm else r.randint(1, modes)
        need.append([]); dist.append([])
        for _ in range(nm):
            d = 0 if dm or r.random() < zero else r.randint(1, maxdur)
            ds = [d]
            if uncertain and not dm and r.random() < 0.6:
                ds = sorted(r.sample(range(0 if r.random() < 0.3 else 1, maxdur + 2), r.randint(2, 3)))
            ws = [r.randint(1, 4) for _ in ds]
            if len(ds) == 1: ws = [1]
            dist[-1].append([[x, w] for x, w in zip(ds, ws)])
            row = []
            for i in range(m):
                if i >= nt: row.append([0]); continue
                lo = 0 if r.random() < 0.4 else 1
                hi = cap[i] + (1 if r.random() < 0.08 else 0)
                k = 0 if dm else r.randint(min(lo, hi), hi)
                if varying and not dm and r.random() < 0.7:
                    row.append([r.randint(0, hi) for _ in range(max(max(ds), 2))])
                else:
                    row.append([k])
            need[-1].append(row)
    avail = []
    for i in range(m):
        if calendar and ren[i] and r.random() < 0.7:
            avail.append([cap[i] if r.random() < 0.7 else r.randint(0, cap[i]) for _ in range(hor + 4)])
        else:
            avail.append([cap[i]])
    preds = [[] for _ in range(n)]
    for t in range(1, n):
        for p in range(t):
            if r.random() < (0.35 if not dummies else 0.25):
                preds[t].append(p + 1)
    if dummies:
        for t in range(1, n):
            if not preds[t]: preds[t] = [1]
        for t in range(n - 1):
            if not any(t + 1 in q for q in preds): preds[n - 1] = sorted(set(preds[n - 1]) | {t + 1})
    conds = [[] for _ in range(n)]
    exist = [[] for _ in range(n)]
    if conditional:
        for t in range(n):
            if r.random() < 0.5:
                for _ in range(r.choice([1, 1, 2])):
                    cs = r.sample(range(1, 5), r.randint(1, 2))
                    conds[t].append([[c, r.randint(1, 3)] for c in cs])
        for t in range(1, n):
            if r.random() < 0.4:
                exist[t] = r.sample(range(1, 5), r.randint(1, 2) if r.random() < 0.3 else 1)
    rsk = [[0] * nk for _ in range(nt)] + [[r.randint(0, 2) for _ in range(nk)] for _ in range(nu)]
    tsk = [[[0 if (dummies and t in (0, n - 1)) or r.random() < 0.4 else r.randint(1, 2) for _ in range(nk)]
            for _ in need[t]] for t in range(n)]
    return dict(n=n, m=m, nt=nt, nk=nk, hor=hor, ren=ren, need=need, avail=avail, preds=preds, dist=dist, conds=conds,
                exist=exist, pre=[preempt and r.random() < 0.7 for _ in range(n)],
                ret=[not preempt or r.random() < 0.5 for _ in range(n)], mk=not costs or r.random() < 0.5, cost=costs,
                mcost=[[r.randint(0, 3) * 500 if costs else 0 for _ in need[t]] for t in range(n)],
                ucost=[r.randint(0, 3) * 500 if costs else 0 for _ in range(m)], rsk=rsk, tsk=tsk)

# ---------------------------------------------------------------- domains
class Names:
    """Task ids, resource names and mode numbers used for an instance."""
    def __init__(self, I, ids=None):
        self.ids = ids or list(range(1, I['n'] + 1))
        self.ix = {t: i for i, t in enumerate(self.ids)}
        self.res = ['R%d' % (i + 1) for i in range(I['nt'])] + ['emp%d' % (i + 1) for i in range(I['m'] - I['nt'])]
        self.rx = {t: i for i, t in enumerate(self.res)}

def dd(pairs):
    w = sum(x[1] for x in pairs)
    return DiscreteDistribution([(x[0], x[1] / w) for x in pairs])

class Cond(Enum):
    C1 = 1; C2 = 2; C3 = 3; C4 = 4

class Cfg:
    """Answers every question a scheduling domain asks from the instance."""
    def __init__(self, I, N):
        self.I, self.N = I, N
        self.rnd = random.Random(I["n"])
        mk = VaryingModeConsumption if self.get_variable_resource_consumption() else ConstantModeConsumption
        self.modes = {}
        for t in N.ids:
            self.modes[t] = {}
            for md, row in enumerate(I['need'][N.ix[t]]):
                if mk is ConstantModeConsumption:
                    self.modes[t][md + 1] = mk({N.res[i]: row[i][0] for i in range(I['nt'])})
                else:
                    self.modes[t][md + 1] = mk({N.res[i]: (row[i] if len(row[i]) > 1 else row[i] * 12) for i in range(I['nt'])})
        self.succ = {t: [u for u in N.ids if N.ix[t] + 1 in I['preds'][N.ix[u]]] for t in N.ids}
        self.exist = {t: [Cond(c) for c in I['exist'][N.ix[t]]] for t in N.ids if I['exist'][N.ix[t]]}
        self.added = {t: [DiscreteDistribution([(Cond(c), w / sum(x[1] for x in d)) for c, w in d]) for d in I['conds'][N.ix[t]]]
                      for t in N.ids if I['conds'][N.ix[t]]}
        self.initialize_domain()
    def _get_tasks_modes(self): return self.modes
    def _get_tasks_mode(self): return {t: self.modes[t][1] for t in self.modes}
    def _get_successors(self): return self.succ
    def _get_tasks_ids(self): return set(self.N.ids)
    def _get_max_horizon(self): return self.I['hor']
    def _get_resource_types_names(self): return self.N.res[:self.I['nt']]
    def _get_objectives(self):
        return ([SchedulingObjectiveEnum.MAKESPAN] if self.I['mk'] else []) + ([SchedulingObjectiveEnum.COST] if self.I['cost'] else [])
    def _d(self, task, mode): return self.I['dist'][self.N.ix[task]][mode - 1]
    def _q(self, r, t):
        q = self.I['avail'][self.N.rx[r]]
        return q[0] if len(q) == 1 else q[t]
class CfgRen:
    def _get_resource_renewability(self): return dict(zip(self.N.res, self.I['ren']))
class CfgDet:
    def _get_task_duration(self, task, mode=1, progress_from=0.): return self._d(task, mode)[0][0]
class CfgUnc:
    def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None): return dd(self._d(task, mode))
class CfgSim:
    def _sample_task_duration(self, task, mode=1, progress_from=0.): return self.rnd.choice([x[0] for x in self._d(task, mode)])
class CfgCal:
    def _get_quantity_resource(self, resource, time, **kw): return self._q(resource, time)
class CfgConst:
    def _get_original_quantity_resource(self, resource, **kw): return self._q(resource, 0)
class CfgPre:
    def _get_task_preemptivity(self): return {t: self.I['pre'][self.N.ix[t]] for t in self.N.ids}
    def _get_task_resuming_type(self): return {t: ResumeType.Resume for t in self.N.ids}
    def _get_task_paused_non_renewable_resource_returned(self): return {t: self.I['ret'][self.N.ix[t]] for t in self.N.ids}
class CfgCost:
    def _get_mode_costs(self):
        return {t: {md + 1: c / 1000. for md, c in enumerate(self.I['mcost'][self.N.ix[t]])} for t in self.N.ids}
    def _get_resource_cost_per_time_unit(self): return {n: c / 1000. for n, c in zip(self.N.res, self.I['ucost'])}
class CfgCond:
    def _get_all_condition_items(self): return Cond
    def _get_task_on_completion_added_conditions(self): return self.added
    def _get_task_existence_conditions(self): return self.exist
class CfgUnit:
    def _get_resource_units_names(self): return self.N.res[self.I['nt']:]
    def _get_resource_type_for_unit(self): return None
    def _get_all_resources_skills(self):
        return {n: {'S%d' % (k + 1): v for k, v in enumerate(row) if v or k == 0} for n, row in zip(self.N.res, self.I['rsk'])}
    def _get_all_tasks_skills(self):
        return {t: {md + 1: {'S%d' % (k + 1): v for k, v in enumerate(row) if v} for md, row in enumerate(self.I['tsk'][self.N.ix[t]])}
                for t in self.N.ids}

PLAIN = (DeterministicTaskProgress, WithoutPreallocations, WithoutTimeLag, WithoutTimeWindow)
class Preemptive(Cfg, CfgRen, CfgDet, CfgCal, CfgPre, CfgCost, DeterministicSchedulingDomain, MultiMode, DeterministicTaskDuration,
                 *PLAIN, WithoutResourceUnit, WithoutResourceSkills, DeterministicResourceAvailabilityChanges,
                 WithoutConditionalTasks):
    pass
class PreemptiveConst(Cfg, CfgRen, CfgDet, CfgConst, CfgPre, DeterministicSchedulingDomain, MultiMode, DeterministicTaskDuration,
                 *PLAIN, WithoutResourceUnit, WithoutResourceSkills, WithoutResourceAvailabilityChange,
                 WithoutConditionalTasks, ConstantResourceConsumption, WithoutModeCosts, WithoutResourceCosts):
    pass
class UncertainAll(Cfg, CfgRen, CfgUnc, CfgCal, CfgPre, CfgCond, UncertainSchedulingDomain, MultiMode, UncertainUnivariateTaskDuration,
                 *PLAIN, WithoutResourceUnit, WithoutResourceSkills, DeterministicResourceAvailabilityChanges,
                 WithoutModeCosts, WithoutResourceCosts):
    pass
class EnumDur(Cfg, CfgUnc, CfgConst, UncertainSchedulingDomain, MultiMode, EnumerableTaskDuration,
                 *PLAIN, WithoutResourceUnit, WithoutResourceSkills, WithoutResourceAvailabilityChange,
                 WithoutConditionalTasks, ConstantResourceConsumption, RenewableOnly, WithoutPreemptivity, WithoutModeCosts, WithoutResourceCosts):
    pass
class UniformDur(Cfg, CfgConst, UncertainSchedulingDomain, MultiMode, UniformBoundedTaskDuration,
                 *PLAIN, WithoutResourceUnit, WithoutResourceSkills, WithoutResourceAvailabilityChange,
                 WithoutConditionalTasks, ConstantResourceConsumption, RenewableOnly, WithoutPreemptivity, WithoutModeCosts, WithoutResourceCosts):
    def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.): return self._d(task, mode)[-1][0]
    def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.): return self._d(task, mode)[0][0]
class WithCost(Cfg, CfgRen, CfgDet, CfgConst, CfgCost, MultiModeRCPSPWithCost): pass
class StochCond(Cfg, CfgUnc, CfgConst, CfgCond, SingleModeRCPSP_Stochastic_Durations_WithConditionalTasks): pass
class StochSingle(Cfg, CfgUnc, CfgConst, SingleModeRCPSP_Stochastic_Durations): pass
class SimCond(Cfg, CfgSim, CfgConst, CfgCond, SingleModeRCPSP_Simulated_Stochastic_Durations_WithConditionalTasks): pass
class SimPre(Cfg, CfgRen, CfgSim, CfgCal, CfgPre, CfgCond, SchedulingDomain, MultiMode, *PLAIN, WithoutResourceUnit, WithoutResourceSkills,
             DeterministicResourceAvailabilityChanges,
             WithoutModeCosts, WithoutResourceCosts):
    pass
class SkillPre(Cfg, CfgRen, CfgDet, CfgCal, CfgPre, CfgUnit, CfgCost, DeterministicSchedulingDomain, MultiMode, DeterministicTaskDuration,
             *PLAIN, DeterministicResourceAvailabilityChanges,
             WithoutConditionalTasks, ConstantResourceConsumption):
    pass
class SkillConst(Cfg, CfgRen, CfgDet, CfgConst, CfgUnit, MultiModeMultiSkillRCPSP): pass
class SingleCal(Cfg, CfgDet, CfgCal, SingleModeRCPSPCalendar): pass

def hub_args(I, N, calendar):
    tm = {}
    for t in N.ids:
        tm[t] = {}
        for md, row in enumerate(I['need'][N.ix[t]]):
            tm[t][md + 1] = dict({N.res[i]: row[i][0] for i in range(I['nt'])}, duration=I['dist'][N.ix[t]][md][0][0])
            for k, v in enumerate(I['tsk'][N.ix[t]][md]):
                if v: tm[t][md + 1]['S%d' % (k + 1)] = v
    av = {}
    for i, nme in enumerate(N.res):
        q = I['avail'][i]
        av[nme] = (q if len(q) > 1 else q * (I['hor'] + 4)) if calendar else q[0]
    succ = {t: [u for u in N.ids if N.ix[t] + 1 in I['preds'][N.ix[u]]] for t in N.ids}
    return dict(task_ids=list(N.ids), tasks_mode=tm, successors=succ, max_horizon=I['hor'], resource_availability=av,
                resource_renewable=dict(zip(N.res, I['ren'])))
def skill_args(I, N):
    return dict(skills_names=['S%d' % (k + 1) for k in range(I['nk'])], resource_unit_names=N.res[I['nt']:],
                resource_type_names=N.res[:I['nt']],
                resource_skills={n: {'S%d' % (k + 1): v for k, v in enumerate(row) if v} for n, row in zip(N.res, I['rsk'])})
def hub(cls, I, N):
    cal = 'Calendar' in cls
    a = hub_args(I, N, cal)
    if cls.startswith('MS'):
        return getattr(R, cls)(**a, **skill_args(I, N))
    a['resource_names'] = list(N.res)
    if cls in ('RCPSP', 'RCPSPCalendar', 'MRCPSP', 'MRCPSPCalendar'):
        return getattr(R, cls)(**a)
    durs = {t: {md + 1: dd(d) for md, d in enumerate(I['dist'][N.ix[t]])} for t in N.ids}
    if cls == 'SMRCPSPCalendar':
        return R.SMRCPSPCalendar(duration_distribution=durs, **a)
    if cls == 'Stochastic_RCPSP':
        a['tasks_mode'] = {t: {md: ConstantModeConsumption({x: v for x, v in q.items() if x != 'duration'}) for md, q in ms.items()}
                           for t, ms in a['tasks_mode'].items()}
        return R.Stochastic_RCPSP(duration_distribution=durs, **a)
    if cls == 'built':
        return R.build_stochastic_from_deterministic(R.MRCPSP(**a), set(t for t in N.ids if N.ix[t] in I['noisy']))
    raise ValueError(cls)

# ---------------------------------------------------------------- recording
def state_rec(s, I, N):
    n, m = I['n'], I['m']
    st = []
    for t in N.ids:
        inn = [k for k, q in (('rem', s.tasks_remaining), ('run', s.tasks_ongoing), ('pau', s.tasks_paused), ('done', s.tasks_complete)) if t in q]
        st.append(inn[0] if len(inn) == 1 else 'out' if not inn else '+'.join(inn))
    num = lambda x: -1 if x is None else int(x)
    det = s.tasks_details
    used = [int(s.resource_used.get(r, -99)) for r in N.res]
    held = [[int(s.resource_used_for_task.get(t, {}).get(r, 0)) for r in N.res] for t in N.ids]
    return dict(t=int(s.t), st=st, mode=[num(s.tasks_mode.get(t)) for t in N.ids], dur=[num(det[t].sampled_duration) for t in N.ids],
                start=[num(det[t].start) for t in N.ids], end=[num(det[t].end) for t in N.ids],
                pau=[[int(x) for x in det[t].paused] for t in N.ids], res=[[int(x) for x in det[t].resumed] for t in N.ids],
                held=held, used=used, av=[int(s.resource_availability.get(r, -99)) for r in N.res],
                conds=sorted(c.value if isinstance(c, Enum) else int(c) for c in s._current_conditions))
def prog_rec(s, N):
    return [-1 if t not in s.tasks_progress else int(round(s.tasks_progress[t] * 10000)) for t in N.ids]
def act_rec(a, N, units=False):
    d = dict(kind=a.action.name, task=-1 if a.task is None else N.ix[a.task] + 1, mode=-1 if a.mode is None else int(a.mode))
    if units:
        d['time'] = bool(a.time_progress)
        d['units'] = sorted(N.rx[x] + 1 for x in (a.resource_unit_names or ()))
    return d
def is_units(dom): return not (isinstance(dom, WithoutResourceSkills) and isinstance(dom, WithoutResourceUnit))
def term_of(dom, s): return bool(dom.is_terminal(s) if hasattr(dom, 'is_terminal') else dom._is_terminal(s))
def obs_rec(dom, s, I, N, offers=True):
    off = []
    if offers and not is_units(dom):
        off = [act_rec(a, N) for a in dom.get_applicable_actions(s).get_elements()]
    return dict(s=state_rec(s, I, N), prog=prog_rec(s, N), off=off, goal=bool(dom.is_goal(s)), term=term_of(dom, s))
def apply(dom, kind, s, a, I, N, full):
    """One transition: (successor, its recorded outcome)."""
    before = state_rec(s, I, N)
    dist, oterm = [], []
    if kind == 'det':
        ns = dom.get_next_state(s, a)
        value = dom.get_transition_value(s, a, ns).cost
        if full:
            dist = dom.get_next_state_distribution(s, a).get_values()
    elif kind == 'unc':
        dist = dom.get_next_state_distribution(s, a).get_values()
        o = dom.sample(s, a)
        ns, value, oterm = o.observation, o.value.cost, [bool(o.termination)]
    else:
        o = dom.sample(s, a)
        ns, value, oterm = o.observation, o.value.cost, [bool(o.termination)]
    after = state_rec(s, I, N)
    d = [dict(p=int(round(p * 1e6)), s=state_rec(x, I, N), prog=prog_rec(x, N)) for x, p in dist]
    return ns, dict(a=act_rec(a, N, True), value=int(round(value * 1000)), dist=d, mutated=before != after, oterm=oterm)

def walk(tr, dom, kind, I, N, r, steps, full):

    random.seed(r.random()); dom.rnd = r
    s = dom.get_initial_state()
    o = obs_rec(dom, s, I, N)
    tr.ev('init', next=o)
    for step in range(steps):
        if o['term']:
            break
        space = dom.get_applicable_actions(s)
        if is_units(dom):
            many = step % 4 == 0
            seen = {}
            for _ in range(300 if many else 12):
                a = space.sample()
                k = act_rec(a, N, True)
                seen.setdefault(repr(k), (a, k))
            tr.ev('sampled', acts=[k for _, k in seen.values()], many=many)
            acts = [a for a, _ in seen.values()]
        else:
            acts = list(space.get_elements())
        if is_units(dom) and not I['cost'] and step % 3 == 0 and kind == 'det':   # every crew for one startable task
            rem = sorted((t, md) for t in s.tasks_remaining for md in dom.get_task_modes(t) if dom.get_skills_of_task(t, md))
            us = N.res[I['nt']:]
            if rem:
                t, md = r.choice(rem)
                for n in range(2 ** len(us)):
                    a = SchedulingAction(task=t, action=E.START, mode=md, time_progress=False,
                                         resource_unit_names={u for i, u in enumerate(us) if n >> i & 1})
                    ns, e = apply(dom, kind, s, a, I, N, False)
                    tr.ev('trans', pre=state_rec(s, I, N), next=obs_rec(dom, ns, I, N, offers=False), **e)
        x = r.random()
        pool = [a for a in acts if a.action != E.TIME_PR]
        if pool and x < 0.7:
            a = r.choice(pool)
        elif x < (0.92 if is_units(dom) else 0.78) and not I['cost']:   # an action that is refused or not offered: starting/resuming without resources
            rem = [(t, md) for t in s.tasks_remaining for md in dom.get_task_modes(t)]
            pau = sorted(s.tasks_paused)
            if rem and (not pau or r.random() < 0.5):
                t, md = r.choice(sorted(rem))
                a = SchedulingAction(task=t, action=E.START, mode=md, time_progress=False)
            elif pau:
                t = r.choice(pau)
                a = SchedulingAction(task=t, action=E.RESUME, mode=r.choice([None, s.tasks_mode[t]]), time_progress=False)
            else:
                a = r.choice(acts)
            if is_units(dom) and a.action in (E.START, E.RESUME):   # any crew, qualified and free or not
                us = N.res[I['nt']:]
                a = SchedulingAction(task=a.task, action=a.action, mode=a.mode, time_progress=False,
                                     resource_unit_names=set(r.sample(us, r.randint(0, len(us)))))
        else:
            a = SchedulingAction(task=None, action=E.TIME_PR, mode=None, time_progress=True)
        if a.action == E.START and r.random() < 0.12 and not I['cost']:   # start and let time pass in one action
            a = SchedulingAction(task=a.task, action=E.START, mode=a.mode, time_progress=True, resource_unit_names=a.resource_unit_names)
        s, e = apply(dom, kind, s, a, I, N, full)
        o = obs_rec(dom, s, I, N)
        tr.ev('step', next=o, **e)

def explore(tr, dom, kind, I, N, limit):
    """Every state reachable by offered actions, and every transition between them."""
    import json
    s0 = dom.get_initial_state()
    tr.ev('init', next=obs_rec(dom, s0, I, N))
    seen = {json.dumps(state_rec(s0, I, N))}
    todo = [s0]
    nev = 0
    while todo and nev < limit:
        s = todo.pop(0)
        if term_of(dom, s): continue
        for a in dom.get_applicable_actions(s).get_elements():
            ns, e = apply(dom, kind, s, a, I, N, True)
            nexts = [ns] if kind == 'det' else [x for x, _ in dom.get_next_state_distribution(s, a).get_values()]
            pre = state_rec(s, I, N)
            first = True
            for x in nexts:
                k = json.dumps(state_rec(x, I, N))
                new = k not in seen and not any(len(p) > 1 for p in state_rec(x, I, N)['pau'])
                if new:
                    seen.add(k); todo.append(x)
                if new or first:
                    if kind == 'det' or first:
                        ev = dict(e)
                    else:
                        ev = dict(e, dist=[])
                    ev['oterm'] = []
                    ev['value'] = int(round(dom.get_transition_value(s, a, x).cost * 1000))
                    tr.ev('trans', pre=pre, next=obs_rec(dom, x, I, N), **ev)
                    nev += 1
                first = False

HUBS = [('RCPSP', 'det', dict(modes=1, nonren=False)), ('MRCPSP', 'det', {}), ('MRCPSPCalendar', 'det', dict(calendar=True)),
        ('RCPSPCalendar', 'det', dict(modes=1, nonren=False, calendar=True)),
        ('Stochastic_RCPSP', 'unc', dict(nonren=False, uncertain=True)), ('SMRCPSPCalendar', 'unc', dict(calendar=True, uncertain=True)),
        ('MSRCPSP', 'det', dict(skills=True)), ('MSRCPSPCalendar', 'det', dict(skills=True, calendar=True)),
        ('built', 'unc', dict(nonren=False, zero=0.05))]
GEN = [(Preemptive, 'det', dict(calendar=True, varying=True, preempt=True, costs=True, dummies=False)),
       (Preemptive, 'det', dict(varying=True, preempt=True, dummies=False)),
       (PreemptiveConst, 'det', dict(preempt=True, dummies=False)),
       (UncertainAll, 'unc', dict(calendar=True, varying=True, preempt=True, uncertain=True, conditional=True, dummies=False)),
       (UncertainAll, 'unc', dict(uncertain=True, conditional=True, dummies=False)),
       (EnumDur, 'unc', dict(uncertain=True, nonren=False)), (UniformDur, 'unc', dict(uncertain=True, nonren=False)),
       (WithCost, 'det', dict(costs=True)), (StochCond, 'unc', dict(uncertain=True, conditional=True, modes=1, nonren=False, dummies=False)),
       (StochSingle, 'unc', dict(uncertain=True, modes=1, nonren=False)),
       (SimCond, 'sim', dict(uncertain=True, conditional=True, modes=1, nonren=False, dummies=False)),
       (SimPre, 'sim', dict(calendar=True, varying=True, preempt=True, uncertain=True, conditional=True, dummies=False)),
       (SkillPre, 'det', dict(skills=True, calendar=True, preempt=True, costs=True, dummies=False)),
       (SkillConst, 'det', dict(skills=True)), (SingleCal, 'det', dict(modes=1, nonren=False, calendar=True))]

def fix_inst(name, I, r):
    if name == 'UniformDur':
        for t in I['dist']:
            for i, d in enumerate(t):
                t[i] = [[x, 1] for x in range(d[0][0], d[-1][0] + 1)]
    if name == 'built':
        I['noisy'] = sorted(r.sample(range(I['n']), r.randint(1, I['n'])))
        I['hor'] *= 2
        for t in range(I['n']):
            for i, d in enumerate(I['dist'][t]):
                x = d[0][0]
                if x and t in I['noisy']:
                    w = {}
                    for j in range(-10, 11):
                        w[max(1, x + j)] = w.get(max(1, x + j), 0) + 1
                    I['dist'][t][i] = [[a, b] for a, b in sorted(w.items())]
    return I

def make(what, I, r):
    ids = None
    if not isinstance(what, str) and r.random() < 0.5:   # identifiers that are not 1..n
        ids = r.sample(range(1, 40), I['n'])
    N = Names(I, ids)
    if isinstance(what, str):
        J = I
        if what == 'built':
            J = copy.deepcopy(I)
            J['hor'] //= 2
            for t in range(I['n']):
                for i, d in enumerate(J['dist'][t]):
                    if d[0][0] and t in I['noisy']:
                        # the noise is centred on the original duration
                        J['dist'][t][i] = [[I['orig'][t][i], 1]]
        return hub(what, J, N), N
    return what(I, N), N

def main():
    D = Driver()
    walks = 60 if D.thorough else 8
    steps = 60 if D.thorough else 40
    for what, kind, kw in HUBS + GEN:
        name = what if isinstance(what, str) else what.__name__
        for j in range(walks):
            r = D.rng('walk', name, str(sorted(kw)), j)
            I = rand_inst(r, **kw)
            I['orig'] = [[d[0][0] for d in t] for t in I['dist']]
            I = fix_inst(name, I, r)
            def go(tr, I=I, r=r, what=what, kind=kind):
                dom, N = make(what, I, r)
                walk(tr, dom, kind, I, N, r, steps, full=True)
            D.run('walk', '%s-%d-%d' % (name, len(kw), j), go, inst=I)
        if 'MS' in name or 'Skill' in name or kind == 'sim' or name == 'built':
            continue
        for j in range(12 if D.thorough else 2):
            r = D.rng('explore', name, str(sorted(kw)), j)
            I = rand_inst(r, n=r.randint(3, 4), maxdur=2, **kw)
            I['orig'] = []
            I['hor'] = min(I['hor'], 5)
            I = fix_inst(name, I, r)
            def go(tr, I=I, r=r, what=what, kind=kind):
                dom, N = make(what, I, r)
                explore(tr, dom, kind, I, N, 1500 if D.thorough else 250)
            D.run('explore', '%s-%d-%d' % (name, len(kw), j), go, inst=I, secs=120)

if __name__ == "__main__":
    main()
