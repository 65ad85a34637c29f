"""Scheduling problems and solutions: generation, evaluation, feasibility, aggregation, uncertainty."""
import contextlib, io, math, random
import numpy as np
from common import Driver
from skdecide.builders.discrete_optimization.generic_tools.do_problem import MethodAggregating, BaseMethodAggregating
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import (RCPSPModel, RCPSPModelCalendar, SingleModeRCPSPModel, MultiModeRCPSPModel,
    RCPSPSolution, Aggreg_RCPSPModel, UncertainRCPSPModel, MethodRobustification, MethodBaseRobustification, create_poisson_laws, RCPSP_H_Model)
from skdecide.builders.discrete_optimization.rcpsp import rcpsp_utils as ru

from rcpsp_inst import Inst, quiet, BAD

def sched(I, s):
    return [dict(s=int(s.rcpsp_schedule[k]['start_time']), e=int(s.rcpsp_schedule[k]['end_time'])) for k in range(1, I.N + 1)]
def look(tr, o, I, s):
    f = s.rcpsp_schedule_feasible is not False
    tr.ev('look', o=o, feas=f, sched=sched(I, s) if f else [], perm=[int(x) for x in s.rcpsp_permutation], modes=[int(x) for x in s.rcpsp_modes])

def given(I, r, modes):
    """A schedule whose tasks last what their modes say: right, nearly right or random."""
    m = I.model
    style = r.random()
    s = quiet(RCPSPSolution, m, rcpsp_permutation=I.perm(r), rcpsp_modes=list(modes))
    if style < .7 and s.rcpsp_schedule_feasible:
        sc = {k: dict(start_time=v['start_time'], end_time=v['end_time']) for k, v in s.rcpsp_schedule.items()}
        for _ in range(r.randint(0, 2)):
            k = r.randint(2, I.N - 1) if r.random() < .9 else I.N
            d = r.choice([-1, 1, 1, 2, -2])
            if sc[k]['start_time'] + d >= 0:
                sc[k]['start_time'] += d; sc[k]['end_time'] += d
    else:
        sc = {1: dict(start_time=0, end_time=0)}
        for k in range(2, I.N):
            t = r.randint(0, max(1, min(I.H, 12)))
            sc[k] = dict(start_time=t, end_time=t + I.md[k][modes[k - 2]]['duration'])
        e = max(v['end_time'] for v in sc.values())
        sc[I.N] = dict(start_time=e, end_time=e)
    top = max(v['end_time'] for v in sc.values())
    if top > I.H:
        return None
    return sc

def history(tr, r, insts):
    tr.d['I'] = [i.spec() for i in insts]
    objs, n = {}, 0
    for step in range(r.randint(3, 14)):
        if not objs or (len(objs) < 4 and r.random() < .2):
            n += 1; p = r.randrange(len(insts)); I = insts[p]
            if r.random() < .3:
                modes = I.modes(r); sc = given(I, r, modes)
                if sc is None: continue
                flag = r.choice([None, None, True]) if max(v['end_time'] for v in sc.values()) <= sc[I.N]['end_time'] else None
                perm = None if r.random() < .4 and I.kind != 'multi' else I.perm(r)
                s = quiet(RCPSPSolution, I.model, rcpsp_permutation=perm, rcpsp_schedule=sc, rcpsp_modes=list(modes), rcpsp_schedule_feasible=flag)
                tr.ev('new', o=n, p=p + 1, perm=[int(x) for x in s.rcpsp_permutation], modes=modes, given=[dict(s=sc[k]['start_time'], e=sc[k]['end_time']) for k in range(1, I.N + 1)])
                objs[n] = [p, s]
                look(tr, n, I, s)
                if perm is None: tr.ev('std', o=n, perm=[int(x) for x in s.rcpsp_permutation])
            else:
                perm = I.perm(r); modes = I.modes(r, I.kind == 'multi' and r.random() < .3)
                if I.kind != 'multi' and r.random() < .3 and not I.model.is_rcpsp_multimode():
                    modes = [1] * I.n
                    s = quiet(RCPSPSolution, I.model, rcpsp_permutation=list(perm))
                elif r.random() < .1:
                    perm, modes = list(range(I.n)), [1] * I.n
                    s = quiet(I.model.get_dummy_solution)
                else: s = quiet(RCPSPSolution, I.model, rcpsp_permutation=list(perm), rcpsp_modes=list(modes))
                tr.ev('new', o=n, p=p + 1, perm=perm, modes=modes, given=[])
                objs[n] = [p, s]
                look(tr, n, I, s)
            continue
        o = r.choice(list(objs)); p, s = objs[o]; I = insts[p]
        k = r.randrange(12)
        if k == 0:
            q = I.perm(r); s.rcpsp_permutation = list(q); tr.ev('setperm', o=o, perm=q)
        elif k == 1:
            q = I.modes(r); s.rcpsp_modes = list(q); tr.ev('setmodes', o=o, modes=q)
        elif k == 2 and len(objs) < 5:
            n += 1; c = quiet(s.copy if r.random() < .5 else s.lazy_copy); tr.ev('copy', o=o, c=n); objs[n] = [p, c]
        elif k == 3 and len(insts) > 1:
            q = r.randrange(len(insts))
            quiet(s.change_problem, insts[q].model); objs[o][0] = q
            tr.ev('move', o=o, p=q + 1); look(tr, o, insts[q], s)
        elif k in (4, 5):
            tr.ev('satisfy', o=o, ok=bool(quiet(I.model.satisfy, s))); look(tr, o, I, s)
        elif k in (6, 7, 8):
            d = quiet(I.model.evaluate, s)
            mk = int(d['makespan'])
            tr.ev('eval', o=o, mk=mk, res=I.scaled(d['mean_resource_reserve'], mk), flag=bool(s.rcpsp_schedule_feasible)); look(tr, o, I, s)
        elif k == 9:
            quiet(I.model.evaluate, s)
            if s.rcpsp_schedule_feasible is not False:
                tr.ev('std', o=o, perm=[int(x) for x in quiet(s.generate_permutation_from_schedule)])
        else:
            d = quiet(I.model.evaluate, s)
            if s.rcpsp_schedule_feasible is False: continue
            v = r.randrange(4)
            ok = max(x['end_time'] for x in s.rcpsp_schedule.values()) <= s.rcpsp_schedule[I.N]['end_time'] # a sink before other tasks is no schedule
            if not ok: continue
            if v < 2:
                c = I.model.compute_resource_consumption(s); tr.ev('usage', o=o, shift=1, rs=list(range(1, len(I.names) + 1)), use=[[int(x) for x in row] for row in c])
            elif v == 2:
                fut = r.random() < .5; rs = r.sample(range(len(I.names)), r.randint(1, len(I.names)))
                full = r.random() < .5
                if full: rs = list(range(len(I.names)))
                c, t = ru.compute_resource_consumption(I.model, s, None if full else [I.names[x] for x in rs], future_view=fut)
                tr.ev('usage', o=o, shift=int(fut), rs=[x + 1 for x in rs], use=[[int(x) for x in row] for row in c])
            elif I.kind != 'calendar' and d['makespan'] > 0 and quiet(I.model.satisfy, s):
                kinds = [x for k2, x in enumerate(I.names) if k2 not in I.nr]
                u = quiet(ru.compute_schedule_per_resource_individual, I.model, s, kinds)
                for x in kinds:
                    w = u[x]['activity'].astype(int)
                    tr.ev('units', o=o, r=I.names.index(x) + 1, who=[[int(y) for y in row] for row in w], total=[int(y) for y in u[x]['total_activity']])
        if r.random() < .06 and len(objs) > 1:
            a, b = r.sample(list(objs), 2)
            if insts[objs[a][0]].n == insts[objs[b][0]].n:
                for q in (a, b): quiet(insts[objs[q][0]].model.evaluate, objs[q][1])
                if all(objs[q][1].rcpsp_schedule_feasible is not False for q in (a, b)):
                    df = ru.all_diff_start_time((objs[a][1], objs[b][1])); tr.ev('diffs', o=a, c=b, got=[int(df[k2]) for k2 in range(1, I.N + 1)])

def encoded(tr, r, insts):
    tr.d['I'] = [i.spec() for i in insts]
    for _ in range(r.randint(1, 4)):
        p = r.randrange(len(insts)); I = insts[p]; m = I.model
        if I.kind == 'plain': return
        perm = I.perm(r)
        if I.kind == 'multi':
            modes = I.modes(r)
            if r.random() < .5:
                m.set_fixed_modes(list(modes)); d = quiet(m.evaluate_from_encoding, list(perm), 'rcpsp_permutation')
            else:
                if r.random() < .5: m.set_fixed_permutation(list(perm))
                else: quiet(m.set_fixed_attributes, 'rcpsp_permutation', quiet(RCPSPSolution, m, rcpsp_permutation=list(perm), rcpsp_modes=list(modes)))
                d = quiet(m.evaluate_from_encoding, [x - 1 for x in modes], 'rcpsp_modes')
        else:
            modes = [1] * I.n; d = quiet(m.evaluate_from_encoding, list(perm), 'rcpsp_permutation')
        mk = int(d['makespan'])
        tr.ev('encoded', p=p + 1, perm=perm, modes=modes, mk=mk, res=I.scaled(d['mean_resource_reserve'], mk))
    g = ru.compute_graph_rcpsp(m)
    tr.ev('graph', p=p + 1, edges=[dict(a=a, b=b, lo=int(g.edges_infos_dict[a, b]['min_duration']), hi=int(g.edges_infos_dict[a, b]['max_duration'])) for a, b in g.get_edges()])

AGG = {'min': BaseMethodAggregating.MIN, 'max': BaseMethodAggregating.MAX, 'sum': BaseMethodAggregating.MEAN, 'weighted': BaseMethodAggregating.PONDERATION}
def whole(x):
    return int(round(float(x))) if abs(float(x) - round(float(x))) < 1e-6 else BAD
def robust(tr, r):
    base = Inst(r, r.choice(['single', 'multi']))
    insts = [base]
    for _ in range(r.randint(1, 3)):
        j = Inst(r, base.kind, n=base.n, like=base)
        j.succ, j.cap, j.mult, j.h, j.H = base.succ, base.cap, base.mult, base.h, base.H
        j.model = j.build(); insts.append(j)
    tr.d['I'] = [i.spec() for i in insts]
    ps = list(range(1, len(insts) + 1))
    for _ in range(3):
        how = r.choice(list(AGG)); w = [r.randint(0, 3) for _ in insts]
        ag = quiet(Aggreg_RCPSPModel, [i.model for i in insts], MethodAggregating(AGG[how], ponderation=np.array(w)))
        perm, modes = base.perm(r), base.modes(r)
        k = r.randrange(3)
        if k == 0:
            s = quiet(RCPSPSolution, ag if r.random() < .5 else base.model, rcpsp_permutation=list(perm), rcpsp_modes=list(modes)); d = quiet(ag.evaluate, s)
        elif k == 1:
            s = quiet(ag.get_dummy_solution); s.rcpsp_permutation = list(perm); s.rcpsp_modes = list(modes); d = quiet(ag.evaluate, s)
        else:
            if base.kind == 'multi':
                for i in insts: i.model.set_fixed_modes(list(modes))
            else: modes = [1] * base.n
            d = quiet(ag.evaluate_from_encoding, list(perm), 'rcpsp_permutation')
        mk = float(d['makespan']) * (len(insts) if how == 'sum' else 1)
        tr.ev('robust', ps=ps, how=how, w=w, perm=perm, modes=modes, mk=whole(mk) if mk < 10 ** 6 else BAD)
        if how != 'weighted':
            u = ag.get_unique_rcpsp_model()
            tr.ev('unique', ps=ps, how=how, modes=base.mlist(u.mode_details))

ROB = {'best': MethodBaseRobustification.BEST_CASE, 'worst': MethodBaseRobustification.WORST_CASE, 'average': MethodBaseRobustification.AVERAGE, 'sample': MethodBaseRobustification.SAMPLE}
def uncertain(tr, r):
    I = Inst(r, r.choice(['single', 'multi']), n=r.randint(1, 4))
    # needs above capacity have no law
    for t in I.md:
        for m in I.md[t]:
            for k, x in enumerate(I.names):
                if k not in I.nr: I.md[t][m][x] = min(I.md[t][m][x], I.cap[k][0])
            if 1 < t < I.N: I.md[t][m]['duration'] = max(1, I.md[t][m]['duration'])
    I.model = I.build()
    tr.d['I'] = [I.spec()]
    wr, wd = r.choice([-1, 0, 1, 2]), r.choice([-1, 0, 1, 3])
    laws = create_poisson_laws(I.model, max(wr, 0), max(wd, 0), do_uncertain_resource=wr >= 0, do_uncertain_duration=wd >= 0)
    uni = r.random() < .7
    um = UncertainRCPSPModel(I.model, laws, uniform_law=uni)
    for how in ROB:
        if how == 'average' and not uni: continue
        md = um.create_rcpsp_model(MethodRobustification(ROB[how])).mode_details
        tr.ev('law', p=1, wr=wr, wd=wd, how=how, got=I.mlist(md))
    # the base model is untouched
    tr.ev('law', p=1, wr=-1, wd=-1, how='best', got=I.mlist(I.model.mode_details))

def helper(tr, r):
    """Helper activities around main ones: pre -> main -> post."""
    k = r.randint(1, 2)
    I = Inst(r, 'single', n=3 * k + r.randint(0, 2))
    I.nr = []
    pre, main, post = [], [], []
    ids = list(range(2, I.N)); r.shuffle(ids)
    order = ids
    for j in range(k):
        a, b, c = sorted(ids[3 * j:3 * j + 3])
        pre.append(a); main.append(b); post.append(c)
    I.succ = {1: list(range(2, I.N + 1)), I.N: []}
    for i in range(2, I.N): I.succ[i] = [j for j in range(i + 1, I.N) if r.random() < .15] + [I.N]
    for a, b, c in zip(pre, main, post):
        if b not in I.succ[a]: I.succ[a].insert(0, b)
        if c not in I.succ[b]: I.succ[b].insert(0, c)
    for t in range(2, I.N):
        for x in range(len(I.names)): I.md[t][1][I.names[x]] = min(I.md[t][1][I.names[x]], I.capmax[x])
    I.cap = [[c] for c in I.capmax]
    work = sum(I.md[t][1]['duration'] for t in I.md); I.h, I.mult, I.H = work + 4, 1, work + 4
    I.model = I.build()
    tr.d['I'] = [I.spec()]
    hm = RCPSP_H_Model(I.model, {b: [a] for a, b in zip(pre, main)}, {b: [c] for b, c in zip(main, post)})
    for _ in range(2):
        perm = I.perm(r)
        s = quiet(RCPSPSolution, hm, rcpsp_permutation=list(perm))
        for _ in range(r.randint(1, 2)): d = quiet(hm.evaluate, s)
        tr.ev('helper', p=1, perm=perm, modes=[1] * I.n, pre=pre, main=main, post=post, sched=sched(I, s), gap=int(d['cumulated_helper_gap']), mk=int(d['makespan']))

def family(r, kinds, k):
    n = r.randint(1, 6)
    kind = r.choice(kinds)
    out = [Inst(r, kind, n=n)]
    while len(out) < k: out.append(Inst(r, r.choice(['single', 'multi', 'calendar', 'plain']) if kind != 'multi' else 'multi', n=n))
    return out

d = Driver()
N = 3000 if d.thorough else 420
for k in range(N):
    r = d.rng('rcpsp', k)
    d.run('history', k, lambda tr: history(tr, r, family(r, ['single', 'multi', 'multi', 'calendar', 'plain'], r.choice([1, 1, 2, 3]))))
    if k % 3 == 0: d.run('encoded', k, lambda tr: encoded(tr, r, family(r, ['single', 'multi', 'calendar'], 1)))
    if k % 4 == 0: d.run('robust', k, lambda tr: robust(tr, r))
    if k % 6 == 0: d.run('uncertain', k, lambda tr: uncertain(tr, r))
    if k % 4 == 1: d.run('helper', k, lambda tr: helper(tr, r))
