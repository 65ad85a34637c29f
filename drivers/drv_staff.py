"""Projects with employees: plans generated, evaluated, checked, encoded, shifted, pooled."""
import contextlib, io, random
from common import Driver
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import (MS_RCPSPModel, MS_RCPSPModel_Variant, MS_RCPSPSolution,
    MS_RCPSPSolution_Variant, Employee, SkillDetail, schedule_solution_to_variant)
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.lns_post_process_rcpsp import sgs_variant, PostProMSRCPSP
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import ResultStorage
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
BAD = -777777

class Inst:
    def __init__(self, r, n=None, one=None, multi=None):
        self.n = n = r.randint(1, 5) if n is None else n
        N = self.N = n + 2
        R, S, E = r.randint(0, 2), r.randint(1, 3), r.randint(1, 4)
        self.res = ['R%d' % (k + 1) for k in range(R)]; self.sk = ['S%d' % (k + 1) for k in range(S)]
        self.ids = r.choice([list(range(1, E + 1)), list(range(E)), r.sample(range(20), E)])
        if r.random() < .3: r.shuffle(self.ids)
        else: self.ids.sort()
        self.one = (r.random() < .2) if one is None else one
        multi = (r.random() < .4) if multi is None else multi
        self.nr = [R - 1] if R and r.random() < .3 else []
        dmax = r.choice([2, 3, 5]); zero = r.random() < .4
        cap = [r.randint(1, 4) for _ in range(R)]
        sval = [[(r.random() < .7, r.choice([1, 1, 1, 2, 3, 0])) for _ in range(S)] for _ in range(E)]
        tot = [sum(v for h, v in (sval[e][s] for e in range(E)) if h) for s in range(S)]
        def mode():
            d = 0 if zero and r.random() < .25 else r.randint(1, dmax)
            m = dict(duration=d, **{x: r.randint(0, min(3, cap[k])) if r.random() < .7 else 0 for k, x in enumerate(self.res)})
            for k, x in enumerate(self.sk):
                if d == 0: v = 0
                else: v = r.randint(0, max(1, min(3, tot[k]))) if r.random() < .6 else 0
                if v or r.random() < .5: m[x] = v
            return m
        zerom = lambda: dict(duration=0, **{x: 0 for x in self.res})
        self.md = {1: {1: zerom()}}
        for i in range(2, N):
            mi = [1]
            if multi:
                k = r.randint(1, 3); mi = list(range(1, k + 1)) if r.random() < .8 else [1] + sorted(r.sample(range(2, 6), k - 1))
            self.md[i] = {m: mode() for m in mi}
        self.md[N] = {1: zerom()}
        p = r.choice([.1, .3, .6]); topo = list(range(2, N))
        if r.random() < .4: r.shuffle(topo)
        self.succ = {1: list(range(2, N + 1))}
        for a, i in enumerate(topo): self.succ[i] = [j for j in topo[a + 1:] if r.random() < p] + [N]
        self.succ[N] = []
        if r.random() < .3:
            ks = list(self.succ); r.shuffle(ks); self.succ = {k: self.succ[k] for k in ks}
        work = sum(max(m['duration'] for m in self.md[k].values()) for k in self.md)
        self.H = max(2, int(work * r.uniform(.5, 1.2))) if r.random() < .25 else 2 * work + 6
        L = self.H + r.choice([1, 1, 3])
        for k in self.nr:
            t = sum(max(m[self.res[k]] for m in self.md[q].values()) for q in self.md)
            cap[k] = max(1, t - r.randint(0, 3))
        vary = r.random() < .5
        def row(top):
            out = []
            while len(out) < L: out += [r.choice([top, top, r.randint(0, top)]) if vary else top] * r.randint(1, 4)
            return out[:L]
        self.cap = [[cap[k]] * L if k in self.nr else row(cap[k]) for k in range(R)]
        self.emp = []
        for e in range(E):
            cal = []
            while len(cal) < L: cal += [r.random() < (.8 if vary else .97)] * r.randint(1, 5)
            self.emp.append((sval[e], cal[:L]))
        self.E = E
        self.model = self.build(MS_RCPSPModel_Variant)
    def build(self, cls):
        return cls(skills_set=set(self.sk), resources_set=set(self.res), non_renewable_resources={self.res[k] for k in self.nr},
                   resources_availability={x: list(self.cap[k]) for k, x in enumerate(self.res)},
                   employees={self.ids[e]: Employee({self.sk[k]: SkillDetail(v, 0, 0) for k, (h, v) in enumerate(sv) if h}, list(cal)) for e, (sv, cal) in enumerate(self.emp)},
                   employees_availability=[sum(c[t] for _, c in self.emp) for t in range(len(self.emp[0][1]))],
                   mode_details={t: {m: dict(v) for m, v in q.items()} for t, q in self.md.items()}, successors={k: list(v) for k, v in self.succ.items()},
                   horizon=self.H, horizon_multiplier=1, one_unit_per_task_max=self.one)
    def mlist(self, md=None, pooled=False):
        md = md or self.md
        if pooled: return [[dict(id=m, dur=int(md[t][m]['duration']), need=[int(md[t][m].get(x, BAD)) for x in self.res + self.sk]) for m in sorted(md[t])] for t in range(1, self.N + 1)]
        return [[dict(id=m, dur=int(md[t][m]['duration']), need=[int(md[t][m][x]) for x in self.res], skill=[int(md[t][m].get(x, 0)) for x in self.sk]) for m in sorted(md[t])] for t in range(1, self.N + 1)]
    def spec(self):
        return dict(N=self.N, S=len(self.sk), H=self.H, nr=[k + 1 for k in self.nr], cap=self.cap, one=self.one,
                    emp=[dict(has=[h for h, _ in sv], val=[v for _, v in sv], cal=cal) for sv, cal in self.emp],
                    byid=[self.ids.index(i) + 1 for i in sorted(self.ids)], modes=self.mlist(), succ=[self.succ[k] for k in range(1, self.N + 1)])
    def perm(self, r): p = list(range(self.n)); r.shuffle(p); return p
    def modes(self, r, wild=False):
        return [r.choice(list(self.md[i + 2])) if not (wild and r.random() < .3) else r.randint(2, 9) for i in range(self.n)]
    def prio(self, r):
        out = []
        for _ in range(self.n):
            q = list(range(1, self.E + 1)); r.shuffle(q); out.append(q)
        return out
    def real(self, prio): return [[self.ids[w - 1] for w in q] for q in prio]
    def flat(self, r): q = list(range(self.n * self.E)); r.shuffle(q); return q

def sched(I, s): return [dict(k=k, s=int(v['start_time']), e=int(v['end_time'])) for k, v in s.schedule.items()]
def use(I, u):
    out = []
    for k in u:
        for w in u[k]:
            for x in (sorted(u[k][w]) or [None]): out.append(dict(k=k, w=I.ids.index(w) + 1, x=I.sk.index(x) + 1 if x else 0))
    return out
def complete(I, s): return len(s.schedule) == I.N and s.schedule[I.N]['end_time'] < 10 ** 6
def look(tr, o, I, s):
    ok = complete(I, s)
    tr.ev('look', o=o, ok=ok, sched=sched(I, s) if ok else [], use=use(I, s.employee_usage) if ok else [], modes=[int(s.modes.get(k, BAD)) for k in range(1, I.N + 1)])
def mk(v): return int(min(v, 10 ** 8))

def given(I, r, s):
    """A plan near a generated one."""
    sc = {k: dict(v) for k, v in s.schedule.items()}; us = {k: {w: set(x) for w, x in u.items()} for k, u in s.employee_usage.items()}
    modes = dict(s.modes)
    for _ in range(r.choice([0, 0, 1, 2])): # delay everything from some date on
        t, dl = r.choice([v['start_time'] for v in sc.values()]), r.randint(1, 3)
        for v in sc.values():
            if v['start_time'] >= t: v['start_time'] += dl; v['end_time'] += dl
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        v = r.randrange(8); k = r.randint(2, I.N - 1)
        if v < 3:
            d = r.choice([-1, 1, 2])
            if sc[k]['start_time'] + d >= 0: sc[k]['start_time'] += d; sc[k]['end_time'] += d
        elif v == 3 and us:
            k = r.choice(list(us))
            if us[k]: us[k].pop(r.choice(list(us[k])))
            if not us[k] and r.random() < .5: us.pop(k)
        elif v == 4:
            if sc[k]['end_time'] > sc[k]['start_time']:
                w = r.choice(I.ids); us.setdefault(k, {})[w] = {x for x in I.sk if r.random() < .5}
        elif v == 5 and us:
            k = r.choice(list(us))
            if us[k]:
                w = r.choice(list(us[k])); x = us[k].pop(w); us[k][r.choice(I.ids)] = x
        elif v == 6 and us:
            k = r.choice(list(us))
            if us[k]:
                w = r.choice(list(us[k]))
                if us[k][w]: us[k][w].discard(r.choice(sorted(us[k][w])))
        elif v == 7 and r.random() < .5:
            a, b = r.randint(2, I.N - 1), r.randint(2, I.N - 1)
            d = [sc[q]['end_time'] - sc[q]['start_time'] for q in (a, b)]
            st = [sc[q]['start_time'] for q in (b, a)]
            for q, t, e in zip((a, b), st, d): sc[q] = dict(start_time=t, end_time=t + e)
    end = max(v['end_time'] for k, v in sc.items() if k != I.N)
    if end > sc[I.N]['end_time'] or r.random() < .1: sc[I.N] = dict(start_time=end, end_time=end)
    if max(v['end_time'] for v in sc.values()) > I.H: return None
    if r.random() < .05: sc.pop(r.randint(1, I.N - 1))
    return sc, us, modes
def sent(I, sc): return [dict(k=k, s=v['start_time'], e=v['end_time']) for k, v in sc.items()]

def fresh(I, r, tr, flat=None):
    """A generated solution."""
    perm, modes = I.perm(r), I.modes(r, r.random() < .2)
    flat = r.random() < .25 if flat is None else flat
    prio = I.prio(r); fl = I.flat(r) if flat else []
    if r.random() < .07:
        perm, modes, prio, fl = list(range(I.n)), [1] * I.n, [list(range(1, I.E + 1)) for _ in range(I.n)], []
        s = quiet(I.model.get_dummy_solution)
    else:
        kw = dict(modes_vector=list(modes)) if r.random() < .6 else dict(modes_vector_from0=[m - 1 for m in modes])
        s = quiet(MS_RCPSPSolution_Variant, problem=I.model, priority_list_task=list(perm), priority_worker_per_task=fl if flat else I.real(prio), **kw)
    return perm, modes, prio, fl, s

def history(tr, r, I):
    tr.d['I'] = [I.spec()]
    objs, n = {}, 0
    for _ in range(r.randint(3, 10)):
        if not objs or (len(objs) < 3 and r.random() < .25):
            n += 1
            perm, modes, prio, fl, s = fresh(I, r, tr)
            tr.ev('new', o=n, p=1, perm=perm, modes=modes, prio=[] if fl else prio, flat=fl)
            look(tr, n, I, s); objs[n] = s
            continue
        o = r.choice(list(objs)); s = objs[o]; k = r.randrange(6)
        if k < 2:
            n += 1; c = s.copy(); tr.ev('copy', o=o, c=n); objs[n] = c
            if r.random() < .7:
                perm, modes, prio = I.perm(r), I.modes(r), I.prio(r)
                c.priority_list_task, c.modes_vector, c.priority_worker_per_task = list(perm), list(modes), I.real(prio)
                tr.ev('set', o=n, perm=perm, modes=modes, prio=prio)
            v = quiet(I.model.evaluate, c); tr.ev('eval', o=n, mk=mk(v['makespan'])); look(tr, n, I, c); look(tr, o, I, s)
        elif k == 2: tr.ev('satisfy', o=o, ok=bool(quiet(I.model.satisfy, s)))
        elif k == 3: v = quiet(I.model.evaluate, s); tr.ev('eval', o=o, mk=mk(v['makespan'])); look(tr, o, I, s)
        elif k == 4: v = quiet(I.model.evaluate_mobj, s); tr.ev('eval', o=o, mk=mk(-v.vector_fitness[0]))
        elif complete(I, s):
            v = schedule_solution_to_variant(s)
            tr.ev('variant', p=1, sched=sched(I, s), use=use(I, s.employee_usage), modes=[int(s.modes[i]) for i in range(2, I.N)], perm=[int(x) for x in v.priority_list_task],
                  vmodes=[int(x) for x in v.modes_vector], prio=[[I.ids.index(w) + 1 for w in q] for q in v.priority_worker_per_task])

def plans(tr, r, I):
    tr.d['I'] = [I.spec()]
    m = I.build(MS_RCPSPModel) if r.random() < .5 else I.model
    if r.random() < .2: m = m.copy() if r.random() < .5 else I.build(MS_RCPSPModel).to_variant_model()
    for _ in range(3):
        perm, modes, prio, fl, s = fresh(I, r, tr, False)
        if not complete(I, s): continue
        for _ in range(4):
            g = given(I, r, s)
            if g is None: continue
            sc, us, mo = g
            q = MS_RCPSPSolution(m, dict(mo), {k: dict(v) for k, v in sc.items()}, {k: {w: set(x) for w, x in u.items()} for k, u in us.items()})
            ok = bool(quiet(m.satisfy, q))
            base = MS_RCPSPModel.evaluate_function
            v = MS_RCPSPModel.evaluate_function(m, q) if I.N in q.schedule else BAD
            ml = [mo[k] for k in range(2, I.N)]
            tr.ev('given', p=1, sched=sent(I, sc), use=use(I, us), modes=ml, ok=ok, mk=mk(v))
            if len(sc) == I.N and ok and all(x for u in us.values() for x in u.values()):
                pre = {k: [j for j in I.succ if k in I.succ[j]] for k in range(1, I.N + 1)}
                if r.random() < .5: n = quiet(sgs_variant, q, m, pre)
                else:
                    pp = PostProMSRCPSP(I.model, None); rs = ResultStorage([(q, -v)], mode_optim=ModeOptim.MAXIMIZATION)
                    random.seed(r.random())
                    class Keep(Exception): pass
                    out = []
                    rs.add_solution = lambda sol, fit: out.append((sol, fit))
                    pp.aggreg_from_sol = lambda sol: -MS_RCPSPModel.evaluate_function(m, sol)
                    quiet(pp.build_other_solution, rs); n = out[r.randrange(len(out))][0]
                tr.ev('shift', p=1, sched=sent(I, sc), use=use(I, us), modes=ml, got=sched(I, n), guse=use(I, n.employee_usage), gmodes=[n.modes[k] for k in range(2, I.N)])

def encoded(tr, r, I):
    tr.d['I'] = [I.spec()]; m = I.model
    for _ in range(3):
        perm, modes, prio, fl = I.perm(r), I.modes(r), I.prio(r), I.flat(r)
        k = r.randrange(4); donor = None
        if r.random() < .4: donor = quiet(MS_RCPSPSolution_Variant, problem=m, priority_list_task=list(perm), modes_vector=list(modes), priority_worker_per_task=I.real(prio))
        def fix(att, keys, direct):
            if donor is not None: quiet(m.set_fixed_attributes, r.choice(keys), donor)
            else: direct()
        useflat = False
        if k != 0: fix('perm', ['priority_list_task'], lambda: m.set_fixed_task_permutation(list(perm)))
        if k not in (1, 2): fix('modes', ['modes_vector', 'modes_arrity_fix', 'modes_arrity_fix_from_0'], lambda: m.set_fixed_modes(list(modes)))
        if k != 3:
            if donor is None and r.random() < .5: m.set_fixed_priority_worker_per_task_from_permutation(list(fl)); useflat = True
            else: fix('prio', ['priority_worker_per_task', 'priority_worker_per_task_perm'], lambda: m.set_fixed_priority_worker_per_task(I.real(prio)))
        if k == 0: v = quiet(m.evaluate_from_encoding, list(perm), 'priority_list_task')
        elif k == 1: v = quiet(m.evaluate_from_encoding, list(modes), 'modes_vector')
        elif k == 2: v = quiet(m.evaluate_from_encoding, [x - 1 for x in modes], 'modes_vector_from0')
        else: v = quiet(m.evaluate_from_encoding, list(fl), 'priority_worker_per_task'); useflat = True
        tr.ev('encoded', p=1, perm=perm, modes=modes, prio=[] if useflat else prio, flat=fl if useflat else [], mk=mk(v['makespan']))
    g = m.compute_graph(); tr.ev('graph', p=1, edges=[dict(a=a, b=b) for a, b in g.get_edges()])

def pooled(tr, r, I):
    tr.d['I'] = [I.spec()]; m = I.model
    p = m.build_multimode_rcpsp_calendar_representative()
    tr.ev('pooled', p=1, cap=[[int(x) for x in p.resources[q]] for q in I.res + I.sk], modes=I.mlist(p.mode_details, True), nr=[I.res.index(x) + 1 for x in p.non_renewable_resources],
          H=int(p.horizon), succ=[list(p.successors[k]) for k in range(1, I.N + 1)])
    for _ in range(3):
        perm, modes, prio, fl, s = fresh(I, r, tr)
        if not complete(I, s): continue
        q = RCPSPSolution(p, rcpsp_permutation=list(perm), rcpsp_modes=[s.modes[k] for k in range(2, I.N)], rcpsp_schedule={k: dict(v) for k, v in s.schedule.items()})
        tr.ev('pooledsat', ok=bool(quiet(p.satisfy, q)))

d = Driver()
for k in range(3000 if d.thorough else 420):
    r = d.rng('staff', k)
    d.run('history', k, lambda tr: history(tr, r, Inst(r)))
    if k % 2 == 0: d.run('plans', k, lambda tr: plans(tr, r, Inst(r, one=False)))
    if k % 3 == 0: d.run('encoded', k, lambda tr: encoded(tr, r, Inst(r)))
    if k % 3 == 1: d.run('pooled', k, lambda tr: pooled(tr, r, Inst(r)))
