"""Constraint models, linear programmes and list schedulers for projects."""
import random
import stubs; stubs.install(); stubs.cbc()
from common import Driver
import numpy as np
from rcpsp_inst import Inst, quiet, BAD
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import PartialSolution, RCPSPSolution
from skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers import CP_MRCPSP_MZN, CP_MRCPSP_MZN_MODES
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import PileSolverRCPSP, PileSolverRCPSP_Calendar, GreedyChoice, Executor
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_lp_solver import LP_RCPSP, LP_MRCPSP
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp

def num(x):
    f = float(x)
    return int(round(f)) if abs(f - round(f)) < 1e-6 and abs(f) < 10**8 else BAD
def plan(I, s, fit, modes=None):
    sc = [dict(s=int(s.rcpsp_schedule[k]['start_time']), e=int(s.rcpsp_schedule[k]['end_time'])) for k in range(1, I.N + 1)] if set(s.rcpsp_schedule) == set(range(1, I.N + 1)) else []
    return dict(sched=sc, modes=[int(x) for x in s.rcpsp_modes], fit=num(fit), perm=[])

def sides(I, r, ref, modes, kinds):
    """Side constraints that a known schedule keeps, as the library takes them and as the specification reads them."""
    P, arg = [], {}
    S = {k: ref[k]['start_time'] for k in ref}; E = {k: ref[k]['end_time'] for k in ref}
    real = list(range(2, I.N))
    c = lambda k, a, b, d=0: P.append(dict(k=k, a=a, b=b, d=d))
    pairs = [(a, b) for a in real for b in real if a != b]
    for kind in dict.fromkeys(kinds):
        if kind == 'at':
            q = r.sample(real, r.randint(1, len(real))); r.shuffle(q)
            arg['start_times'] = {t: S[t] for t in q}
            for t in q: c('at', t, t, S[t])
        if kind == 'perm':
            q = sorted(r.sample(real, r.randint(1, len(real))), key=lambda t: (S[t], r.random()))
            arg['partial_permutation'] = q
            for a, b in zip(q, q[1:]): c('before', a, b)
        if kind == 'orders':
            arg['list_partial_order'] = [sorted(r.sample(real, r.choice([len(real), r.randint(1, len(real))])), key=lambda t: (S[t], r.random())) for _ in range(r.randint(1, 2))]
            for q in arg['list_partial_order']:
                for a, b in zip(q, q[1:]): c('before', a, b)
        if kind == 'mode':
            q = r.sample(real, r.randint(1, len(real)))
            arg['task_mode'] = {t: modes[t - 2] for t in q}
            for t in q: c('mode', t, t, modes[t - 2])
        if kind == 'links':
            for name, k, ok in [('start_together', 'together', lambda a, b: S[a] == S[b]), ('start_at_end', 'atend', lambda a, b: S[b] == E[a])]:
                q = [p for p in pairs if ok(*p)]
                if q:
                    arg[name] = r.sample(q, r.randint(1, min(2, len(q))))
                    for a, b in arg[name]: c(k, a, b)
            for name, k, of in [('start_after_nunit', 'after', S), ('start_at_end_plus_offset', 'endplus', E)]:
                q = [(a, b, S[b] - of[a] - r.choice([0, 0, 1])) for a, b in pairs if S[b] >= of[a]]
                q = [x for x in q if x[2] >= 0]
                if q and r.random() < .6:
                    arg[name] = r.sample(q, 1)
                    for a, b, d in arg[name]: c(k, a, b, d)
    return P, arg
def partial(arg):
    old = {k: v for k, v in arg.items() if k in ('task_mode', 'start_times', 'end_times', 'partial_permutation', 'list_partial_order')}
    p = PartialSolution(**old)
    for k, v in arg.items():
        if k not in old: setattr(p, k, v)
    return p

def reference(I, r):
    """A schedule from a permutation and modes; none when these cannot be met."""
    modes = I.modes(r)
    s = quiet(RCPSPSolution, I.model, rcpsp_permutation=I.perm(r), rcpsp_modes=list(modes))
    return (s, modes) if s.rcpsp_schedule_feasible else (None, modes)

def cp(tr, I, r, upto):
    ref, modes = reference(I, r)
    kinds = [] if ref is None or r.random() < .35 else r.sample(['at', 'perm', 'orders', 'mode', 'links', 'links'], r.choice([1, 1, 2]))
    P, arg = sides(I, r, ref.rcpsp_schedule, modes, kinds) if kinds else ([], {})
    solver = CP_MRCPSP_MZN(I.model, cp_solver_name=r.choice([CPSolverName.CHUFFED, CPSolverName.GECODE]))
    pc = ParametersCP.default(); pc.TimeLimit = 100
    x = quiet(solver.solve, parameters_cp=pc, verbose=False, **(dict(partial_solution=partial(arg)) if kinds else {}))
    out = [plan(I, s, f) for s, f in x.list_solution_fits]
    tr.ev('exact', how='cp', P=P, out=out, best=plan(I, x.best_solution, max(f for s, f in x.list_solution_fits)) if out else dict(sched=[], modes=[], fit=0, perm=[]), upto=upto)

def lp(tr, I, r, upto):
    q = [x for x in (reference(I, r) for _ in range(r.choice([1, 4]))) if x[0] is not None]
    if not q: return
    ref, modes = max(q, key=lambda x: x[0].rcpsp_schedule[I.N]['end_time']) # far from the best: what it is asked to keep matters
    one = I.kind != 'multi' and r.random() < .5
    if one and any(m != 1 for m in modes): return
    kinds = [] if r.random() < .35 else r.sample(['at', 'perm', 'orders'] + (['links'] * 3 if one else []), r.choice([1, 1, 2]))
    P, arg = sides(I, r, ref.rcpsp_schedule, modes, kinds) if kinds else ([], {})
    solver = (LP_RCPSP if one else LP_MRCPSP)(I.model)
    kw = dict(partial_solution=partial(arg)) if kinds else {}
    if kinds or r.random() < .5: quiet(solver.init_model, start_solution=ref, **kw)
    elif r.random() < .5: quiet(solver.init_model, greedy_start=False)
    pm = ParametersMilp.default(); pm.TimeLimit = 100
    x = quiet(solver.solve, parameters_milp=pm)
    out = [plan(I, s, f) for s, f in x.list_solution_fits]
    tr.ev('exact', how='lp', P=P, out=out, best=plan(I, x.best_solution, max(f for s, f in x.list_solution_fits)), upto=upto)

RULES = {GreedyChoice.MOST_SUCCESSORS: 'succ', GreedyChoice.FASTEST: 'fast', GreedyChoice.SAMPLE_MOST_SUCCESSORS: 'any', GreedyChoice.TOTALLY_RANDOM: 'any'}
def greedy(tr, I, r):
    cal = I.kind == 'calendar'
    s = quiet(PileSolverRCPSP_Calendar if cal else PileSolverRCPSP, I.model)
    for _ in range(3):
        rule = r.choice(list(RULES))
        x = quiet(s.solve, greedy_choice=rule).list_solution_fits[0]
        p = plan(I, *x); p['perm'] = [int(k) for k in x[0].rcpsp_permutation]
        tr.ev('greedy', how='pile', x=p, modes=[], rule=RULES[rule], list=[])
    if not cal:
        e = quiet(Executor, I.model)
        for _ in range(2):
            modes = I.modes(r)
            if quiet(RCPSPSolution, I.model, rcpsp_permutation=I.perm(r), rcpsp_modes=list(modes)).rcpsp_schedule_feasible is False: continue
            order = list(range(1, I.N + 1)); r.shuffle(order)
            x = quiet(e.compute_schedule_from_priority_list, list(order), {1: 1, I.N: 1, **{k + 2: m for k, m in enumerate(modes)}}).list_solution_fits[0]
            p = plan(I, *x); p['perm'] = [int(k) for k in x[0].rcpsp_permutation]
            tr.ev('greedy', how='list', x=p, modes=list(modes), rule='list', list=order)

def modes(tr, I, r):
    P, arg = [], {}
    if r.random() < .5:
        P, arg = sides(I, r, {k: dict(start_time=0, end_time=0) for k in range(1, I.N + 1)}, I.modes(r), ['mode'])
    pc = ParametersCP.default(); pc.TimeLimit = 100; pc.all_solutions = r.random() < .5; pc.nr_solutions = r.choice([1, 3, 1000])
    x = quiet(CP_MRCPSP_MZN_MODES(I.model, cp_solver_name=r.choice([CPSolverName.CHUFFED, CPSolverName.GECODE])).solve, parameters_cp=pc, **(dict(partial_solution=partial(arg)) if P else {}))
    tr.ev('modes', P=P, out=[[int(m) for m in q] for q in x], all=bool(pc.all_solutions))

def dear(I, r):
    """Short modes cost what hardly any task can afford; the long ones take turns."""
    names = I.names; b = names[-1]; I.nr = [len(names) - 1]
    for t in range(2, I.N):
        ids = sorted(I.md[t])[:2]
        I.md[t] = {m: {**I.md[t][m], 'duration': r.choice([1, 1, 2]), b: 1} for m in ids[:1]} | {m: {**I.md[t][m], 'duration': r.randint(3, 4), b: 0} for m in ids[1:]}
        if len(I.md[t]) == 1: I.md[t][ids[0] + r.randint(1, 2)] = {**I.md[t][ids[0]], 'duration': r.randint(3, 4), b: 0}
    for k in range(len(names) - 1):
        if r.random() < .7:
            for t in range(2, I.N):
                for m in I.md[t].values(): m[names[k]] = I.capmax[k] if r.random() < .8 else 0
    if len(names) == 1 or r.random() < .3:
        for t in range(2, I.N - 1):
            if t + 1 not in I.succ[t] and I.succ.get(t + 1) is not None and t not in I.succ[t + 1]: I.succ[t] = I.succ[t] + [t + 1]
    try:
        import networkx as nx
        if not nx.is_directed_acyclic_graph(nx.DiGraph([(a, c) for a in I.succ for c in I.succ[a]])): raise ValueError
    except ValueError: I.succ = {**{t: [I.N] for t in range(2, I.N)}, 1: list(range(2, I.N + 1)), I.N: []}
    I.cap[-1] = [r.choice([0, 0, 1])]
    work = sum(max(m['duration'] for m in I.md[k].values()) for k in I.md)
    I.h = work + 6; I.mult = 1; I.H = I.h
    I.model = I.build()

def cpm(tr, I, r):
    """The critical path method: its dates, its path, and the schedules built on them."""
    c = quiet(CPM, I.model)
    path = quiet(c.run_classic_cpm)
    m = [c.map_node[k] for k in range(1, I.N + 1)]
    tr.ev('cpm', path=[int(k) for k in path], es=[num(x._ESD) for x in m], ef=[num(x._EFD) for x in m], ls=[num(x._LSD) for x in m], lf=[num(x._LFD) for x in m],
          order=[int(k) for k in c.return_order_cpm()])
    if I.nr or any(len(q) > 1 or 1 not in q for q in I.md.values()): return
    for _ in range(3):
        order = None
        if r.random() < .6:
            order = list(range(1, I.N + 1)); r.shuffle(order)
        cut, loop = r.random() < .5, r.random() < .3
        kw = dict(total_order=None if order is None else list(order))
        s = (quiet(c.run_sgs_time_loop, c.map_node, list(path), **kw) if loop else quiet(c.run_sgs_on_order, c.map_node, list(path), cut_sgs_by_critical=cut, **kw))[0]
        sc = [dict(s=int(s[k]['start_time']), e=int(s[k]['end_time'])) for k in range(1, I.N + 1)] if set(s) == set(range(1, I.N + 1)) else []
        tr.ev('sgs', sched=sc, how='loop' if loop else 'cut' if cut else 'list', list=order or [int(k) for k in c.return_order_cpm()])

def solvable(I, r):
    return any(reference(I, r)[0] is not None for _ in range(12))

def main():
    d = Driver()
    n = 120 if d.thorough else 30
    for kind in ('single', 'multi', 'calendar', 'plain'):
        for i in range(n):
            def go(tr, i=i, kind=kind):
                r = d.rng(kind, i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
                I = Inst(r, kind, n=r.choice([1, 2, 3, 3] if kind in ('multi', 'calendar') else [1, 2, 3, 4, 4]), dmax=r.choice([1, 2, 3]), roomy=True)
                if kind == 'multi' and i % 3 == 0: dear(I, r)
                work = sum(max(m['duration'] for m in I.md[k].values()) for k in I.md)
                tail = kind == 'calendar' and r.random() < .6
                if tail: # a list scheduler never comes back: leave it room in the end
                    I.cap = [row + [row[-1] if k in I.nr else I.capmax[k]] * (work + 4) for k, row in enumerate(I.cap)]
                    I.model = I.build()
                tr.d['I'] = I.spec()
                upto = len(I.cap[0]) if kind == 'calendar' else work
                ok = solvable(I, r)
                cp(tr, I, r, upto); cp(tr, I, r, upto)
                modes(tr, I, r)
                if ok and (tail or kind != 'calendar'):
                    greedy(tr, I, r)
                    if kind != 'calendar': [lp(tr, I, r, upto) for _ in range(4 if kind == 'multi' else 9)]
            d.run(kind, i, go, secs=60)
    for kind in ('single', 'multi', 'calendar', 'plain'):
        for i in range(n):
            def go(tr, i=i, kind=kind):
                r = d.rng('path', kind, i)
                I = Inst(r, kind, n=r.randint(1, 6), dmax=r.choice([1, 2, 3]), roomy=True)
                work = sum(max(m['duration'] for m in I.md[k].values()) for k in I.md)
                if kind == 'calendar': I.cap = [row + [row[-1] if k in I.nr else I.capmax[k]] * (work + 8) for k, row in enumerate(I.cap)]
                I.mult = 1; I.h = I.H = len(I.cap[0]) - 1 if kind == 'calendar' else work + 12
                I.model = I.build()
                tr.d['I'] = I.spec()
                cpm(tr, I, r); cpm(tr, I, r) # the model is as it was
            d.run('path', kind + str(i), go, secs=60)
    for i in range(2 * n):
        def go(tr, i=i):
            r = d.rng('queue', i); random.seed(r.random()); np.random.seed(r.randrange(2**31))
            I = Inst(r, 'single' if i % 3 else 'multi', n=r.randint(5, 7), dmax=r.choice([2, 3]), roomy=True)
            tr.d['I'] = I.spec()
            if solvable(I, r): greedy(tr, I, r)
        d.run('queue', i, go, secs=60)
main()
