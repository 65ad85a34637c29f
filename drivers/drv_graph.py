"""LazyA*, LRTA*, greedy: solves random graph domains and records everything the solver answers."""
from common import *
import graphs
from graphs import *

D_ = Driver()

def answers(tr, solver, gr, op, **kw):
    n = gr['n']
    defd, act, util = [], [], []
    for i in range(1, n + 1):
        d = solver.is_policy_defined_for(S(i))
        defd.append(bool(d))
        a = 0
        if d:
            x = solver.get_next_action(S(i))
            a = 0 if x is None else int(x)
        act.append(a)
        util.append(toint(solver.get_utility(S(i))))
    tr.ev(op, **{'def': defd}, act=act, util=util, **kw)

def astar(tr, gs, hs, plan):
    """plan: list of (graph index, src, via constructor?, weight)"""
    from skdecide.hub.solver.lazy_astar import LazyAstar
    cur = {}
    def heur(domain, s): return hs[cur['g']][s.i - 1]
    use_h = tr.d['inst']['useh']
    solver = None
    for gi, src, fresh, ctor, w in plan:
        g = gs[gi]
        cur['g'] = gi
        if fresh or solver is None:
            kw = dict(heuristic=heur) if use_h else {}
            if w != 1: kw['weight'] = float(w)
            solver = LazyAstar(from_state=S(src) if ctor else None, **kw)
        init = src if not ctor else (src % g['n']) + 1
        fac = lambda g=g, init=init: GraphGoalDomain(g, init)
        GraphGoalDomain.solve_with(solver, fac)
        answers(tr, solver, g, 'solve', g=gi + 1, src=src, w=int(2 * w))     # the weight, in halves

def hfor(r, g, kind):
    d = cost_to_go(g)
    if kind == 'zero': return [0] * g['n']
    if kind == 'exact': return [min(x, 200) for x in d]
    k = r.randint(1, 12)
    return [min(x, k) for x in d]

def run_astar(N):
    for i in range(N):
        r = D_.rng('astar', i)
        gs = [rand_graph(r, nmax=r.choice([3, 5, 7])) for _ in range(r.choice([1, 2, 3]))]
        kind = r.choice(['zero', 'exact', 'capped', 'capped'])
        hs = [hfor(r, g, kind) for g in gs]
        plan = []
        ctor = r.random() < 0.3
        w = r.choice([1, 1, 1, 2])
        if ctor:
            for gi in range(len(gs)):
                plan.append((gi, r.randint(1, gs[gi]['n']), True, True, w))
        else:
            for _ in range(r.choice([1, 2, 3])):
                gi = r.randrange(len(gs))
                plan.append((gi, r.randint(1, gs[gi]['n']), r.random() < 0.3, False, w))
        inst = dict(graphs=gs, h=hs, useh=(kind != 'zero' or r.random() < 0.5))
        D_.run('astar', i, lambda tr: astar(tr, gs, hs, plan), inst)


def lrta(tr, gs, hs, plan):
    from skdecide.hub.solver.lrtastar import LRTAstar
    cur = {}
    def heur(domain, s): return hs[cur['g']][s.i - 1]
    solver = None
    for gi, src, fresh, ctor in plan:
        g = gs[gi]
        cur['g'] = gi
        if fresh or solver is None:
            kw = dict(heuristic=heur) if tr.d['inst']['useh'] else {}
            solver = LRTAstar(from_state=S(src) if ctor else None, max_iter=150, **kw)
        init = src if not ctor else (src % g['n']) + 1
        GraphGoalDomain.solve_with(solver, lambda g=g, init=init: GraphGoalDomain(g, init))
        answers(tr, solver, g, 'solve', g=gi + 1, src=src)

def run_weighted(N):
    """Goals far away behind many equal-looking paths: the weighted search queues a state again and again."""
    for i in range(N):
        r = D_.rng('weighted', i)
        gs = []
        for _ in range(8):
            g = rand_graph(r, nmax=9, density=r.choice([0.3, 0.45, 0.6]), goals=1, selfloop=False)
            gs.append(g)
        hs = [hfor(r, g, 'exact') for g in gs]
        if r.random() < 0.4: hs = [[x // 2 for x in h] for h in hs]      # still consistent
        w = r.choice([1.5, 1.5, 2, 2, 3, 5])
        plan = [(k, r.randint(1, gs[k]['n']), True, False, w) for k in range(len(gs))]
        D_.run('astar', 'w%d' % i, lambda tr: astar(tr, gs, hs, plan), dict(graphs=gs, h=hs, useh=True))

def run_lrta(N):
    for i in range(N):
        r = D_.rng('lrta', i)
        dag = r.random() < 0.7
        gs = [rand_graph(r, nmax=r.choice([3, 5, 6]), acyclic=dag, density=r.choice([0.4, 0.6, 0.8])) for _ in range(r.choice([1, 2]))]
        kind = r.choice(['zero', 'exact', 'capped', 'capped', 'lower'])
        hs = [[x if kind != 'lower' else r.randint(0, min(x, 20)) for x in hfor(r, g, kind if kind != 'lower' else 'exact')] for g in gs]
        ctor = r.random() < 0.3
        plan = []
        for _ in range(r.choice([1, 2, 3])):
            gi = r.randrange(len(gs))
            plan.append((gi, r.choice([1, 1, r.randint(1, gs[gi]['n'])]), ctor or r.random() < 0.3, ctor))
        inst = dict(graphs=gs, h=hs, useh=(kind != 'zero' or r.random() < 0.5))
        D_.run('lrta', i, lambda tr: lrta(tr, gs, hs, plan), inst)

from skdecide import *
from skdecide.builders.domain import *

class MD(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = S
    T_observation = S
    T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

class ParMD(Domain, SingleAgent, Parallel, EnumerableTransitions, Actions, Goals, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = S
    T_observation = S
    T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

def mdp_domain(m, dep, base, hist):
    class Dom(base):
        def _one(self, action): return action[0] if isinstance(action, list) else action
        def _st(self, memory): return memory[-1] if isinstance(memory, Memory) else memory
        def _row(self, memory, action):
            return [x for x in m['acts'][self._st(memory).i - 1] if x['a'] == self._one(action)][0]['outs']
        def _get_next_state_distribution(self, memory, action):
            return DiscreteDistribution([(S(o['v']), o['w'] / m['den']) for o in self._row(memory, action)])
        def _get_transition_value(self, memory, action, next_state=None):
            row = self._row(memory, action)
            if not dep: return TransitionValue(reward=row[0]['r'])
            return TransitionValue(reward=[o['r'] for o in row if o['v'] == next_state.i][0])
        def _is_transition_value_dependent_on_next_state_(self): return dep
        def _is_terminal(self, state): return False
        def _get_action_space_(self): return Listed(range(1, 6))
        def _get_applicable_actions_from(self, memory): return Listed([x['a'] for x in m['acts'][self._st(memory).i - 1]])
        def _get_goals_(self): return ImplicitSpace(lambda s: False)
        def _get_initial_state_(self): return S(1)
        def _get_observation_space_(self): return Listed([S(i + 1) for i in range(m['n'])])
    return Dom

def rand_mdp(r, dep):
    n = r.randint(1, 4)
    den = r.choice([1, 2, 4, 8])
    acts = []
    for u in range(n):
        row = []
        ids = r.sample(range(1, 6), r.randint(1, 4))
        for a in ids:
            k = r.randint(1, min(n, den, 3))
            cuts = sorted(r.sample(range(1, den), k - 1)) if k > 1 else []
            ws = [b - c for b, c in zip(cuts + [den], [0] + cuts)]
            vs = r.sample(range(1, n + 1), k)
            rr = r.randint(-4, 4)
            row.append(dict(a=a, outs=[dict(v=v, w=w, r=(r.randint(-6, 6) if dep else rr)) for v, w in zip(vs, ws)]))
        acts.append(row)
    return dict(n=n, den=den, acts=acts)

def greedy(tr, ms, dep, par):
    from skdecide.hub.solver.simple_greedy import SimpleGreedy
    solver = SimpleGreedy()
    for gi, m in enumerate(ms):
        Dom = mdp_domain(m, dep, ParMD if par else MD, False)
        if not SimpleGreedy.check_domain(Dom()):
            tr.exc('check_domain', 'greedy solver refuses a compliant domain')
            return
        Dom.solve_with(solver, Dom)
        act, defd = [], []
        for u in range(1, m['n'] + 1):
            defd.append(bool(solver.is_policy_defined_for(S(u))))
            a = solver.get_next_action(S(u))
            if par:
                a = a[0] if isinstance(a, list) and len(a) == 1 else -1
            act.append(a if isinstance(a, int) else -1)
        tr.ev('greedy', g=gi + 1, act=act, **{'def': defd})

def run_greedy(N):
    for i in range(N):
        r = D_.rng('greedy', i)
        dep = r.random() < 0.6
        ms = [rand_mdp(r, dep) for _ in range(3)]
        D_.run('greedy', i, lambda tr: greedy(tr, ms, dep, r.random() < 0.3), dict(mdps=ms, dep=dep))

def run_astar_enum(all_):
    """Every graph on three nodes with at most one edge per ordered pair and costs {0,1}, every goal set."""
    import itertools
    pairs = [(u, v) for u in (1, 2, 3) for v in (1, 2, 3) if u != v]
    insts = []
    for cs in itertools.product((-1, 0, 1), repeat=6):
        edges = [dict(u=p[0], a=p[1], v=p[1], c=c) for p, c in zip(pairs, cs) if c >= 0]
        for gm in range(1, 8):
            insts.append(dict(n=3, edges=edges, goal=[bool(gm >> k & 1) for k in range(3)]))
    r = D_.rng('enum')
    r.shuffle(insts)
    if not all_: insts = insts[:1500]
    for b in range(0, len(insts), 25):
        gs = insts[b:b + 25]
        hs = [hfor(r, g, r.choice(['zero', 'exact', 'capped'])) for g in gs]
        plan = [(k, 1, r.random() < 0.5, False, 1) for k in range(len(gs))]
        D_.run('astar', 'enum%d' % (b // 25), lambda tr: astar(tr, gs, hs, plan), dict(graphs=gs, h=hs, useh=True))

if __name__ == '__main__':
    k = 10 if D_.thorough else 1
    if D_.want('astar'):
        run_astar(400 * k)
        run_weighted(120 * k)
        run_astar_enum(D_.thorough)
    if D_.want('lrta'): run_lrta(400 * k)
    if D_.want('greedy'): run_greedy(250 * k)
