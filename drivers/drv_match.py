"""Solver and domain classes of random levels: requirements, checks, matching, and solvers in use together (C05)."""
from common import Driver
from skdecide import *
from skdecide import Domain, Solver
import skdecide.domains as SD
import skdecide.builders.domain as BD
from skdecide.utils import match_solvers
from skdecide.solvers import DeterministicPolicySolver
import graphs
from graphs import S, rand_graph, GraphGoalDomain, cost_to_go
from common import Driver

CH = dict(agent=['MultiAgent', 'SingleAgent'], concurrency=['Parallel', 'Sequential'], constraints=['Constrained'],
  dynamics=['Environment', 'Simulation', 'UncertainTransitions', 'EnumerableTransitions', 'DeterministicTransitions'],
  events=['Events', 'Actions', 'UnrestrictedActions'], goals=['Goals'], initialization=['Initializable', 'UncertainInitialized', 'DeterministicInitialized'],
  memory=['History', 'FiniteHistory', 'Markovian', 'Memoryless'], observability=['PartiallyObservable', 'TransformedObservable', 'FullyObservable'],
  renderability=['Renderable'], value=['Rewards', 'PositiveCosts'])
ORDER = ['agent', 'concurrency', 'constraints', 'dynamics', 'events', 'goals', 'initialization', 'memory', 'observability', 'renderability', 'value']
ALWAYS = {'agent', 'concurrency', 'dynamics', 'events', 'memory', 'observability', 'value'}
HELP = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain', 'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']

def level(r, near=None):
    x = {}
    for f in ORDER:
        lo, hi = (1 if f in ALWAYS else 0), len(CH[f])
        x[f] = r.randint(lo, hi) if near is None else max(lo, min(hi, near[f] + r.choice([0] * 14 + [-1, -1, 1])))
    return x
def klass(x, base=Domain):
    mix = tuple(getattr(BD, CH[f][x[f] - 1]) for f in ORDER if x[f])
    return type('Dm', (base,) + mix, dict(T_state=object, T_observation=object, T_event=object, T_value=float, T_predicate=bool, T_info=None))

def wrap(r, cls):
    """A user subclass, sometimes two deep."""
    for _ in range(r.choice([0, 0, 1, 2])): cls = type('Sub', (cls,), {})
    return cls

def play(tr, r):
    doms, dinst, solv, sc = [], [], [], []
    base = level(r)
    for k in range(r.randint(2, 5)):
        if dinst and r.random() < .35:                 # another domain of a class already there, or of a subclass of it
            k0 = r.randrange(len(dinst))
            doms.append(doms[k0]); c = wrap(r, dinst[k0][0])
        elif r.random() < .2:
            n = r.choice(HELP)
            doms.append(dict(name=n)); c = wrap(r, getattr(SD, n))
        else:
            lv = level(r, base if r.random() < .8 else None)
            doms.append(dict(lv=lv)); c = wrap(r, klass(lv))
        d = c.__new__(c)
        d.tag = k + 1
        dinst.append((c, d))
    for k in range(r.randint(2, 6)):
        if r.random() < .3:                            # the solver is written for the class of a domain
            k0 = r.randrange(len(dinst))
            rec = dict(doms[k0]); t = wrap(r, dinst[k0][0]) if r.random() < .2 else dinst[k0][0]
        elif r.random() < .2:
            n = r.choice(HELP)
            rec = dict(name=n); t = wrap(r, getattr(SD, n))
        else:
            lv = level(r, base if r.random() < .8 else None)
            rec = dict(lv=lv); t = wrap(r, klass(lv))
        rec['extra'] = [r.random() < .7 for _ in doms] if r.random() < .4 else [True] * len(doms)
        ns = dict(T_domain=t)
        if not all(rec['extra']):
            ns['_check_domain_additional'] = classmethod(lambda cls, domain, ok=rec['extra']: ok[domain.tag - 1])
        def _solve_domain(self, f): self.dom = f()
        def _get_next_action(self, o): return self.dom.tag * 100 + o
        def _reset(self): self.resets = getattr(self, 'resets', 0) + 1
        ns.update(_solve_domain=_solve_domain, _get_next_action=_get_next_action, _reset=_reset)
        b = DeterministicPolicySolver if r.random() < .7 or not sc else sc[-1] if r.random() < .3 else DeterministicPolicySolver
        if b is not DeterministicPolicySolver:
            ns.setdefault('_check_domain_additional', classmethod(lambda cls, domain: True))
        sc.append(type('Sv', (b,), ns)); solv.append(rec)
    live = [(k, c()) for k, c in enumerate(sc) for _ in range(r.choice([1, 1, 2]))]
    tr.d.update(domains=doms, solvers=solv, live=len(live))
    solved = set()
    for _ in range(60):
        x = r.random()
        c, d = r.randrange(len(sc)), r.randrange(len(dinst))
        if x < .2:
            on = sc[c] if r.random() < .5 else r.choice([s for k, s in live if k == c])
            tr.ev('check', c=c + 1, d=d + 1, yes=bool(on.check_domain(dinst[d][1])))
        elif x < .3:
            tr.ev('require', c=c + 1, got=[t.__name__ for t in sc[c].get_domain_requirements()])
        elif x < .5:
            among = r.sample(range(len(sc)), r.randint(0, len(sc)))
            q = [sc[k] for k in among]
            kw = dict(ranked=True) if False else {}
            got = match_solvers(dinst[d][1], candidates=r.choice([q, tuple(q), (y for y in q)]), **kw)
            tr.ev('match', d=d + 1, among=[k + 1 for k in among], got=[sc.index(y) + 1 for y in got])
        elif x < .7:
            s = r.randrange(len(live))
            k = live[s][0]
            if not (issubclass(dinst[d][0], tuple(sc[k].get_domain_requirements()[:1])) and sc[k].check_domain(dinst[d][1])): continue
            live[s][1].solve(lambda: dinst[d][1])
            solved.add(s)
            tr.ev('solve', s=s + 1, d=d + 1, seen=live[s][1].dom.tag)
        elif x < .75:
            s = r.randrange(len(live))
            n = getattr(live[s][1], 'resets', 0)
            live[s][1].reset()
            tr.ev('reset', s=s + 1, times=live[s][1].resets - n)
        elif solved:
            s = r.choice(sorted(solved)); o = r.randint(0, 50)
            tr.ev('ask', s=s + 1, obs=o, got=live[s][1]._get_next_action(o))

def bundled(tr, r):
    """The importable domains and solvers of the hub."""
    from skdecide.hub.solver.lazy_astar import LazyAstar
    from skdecide.hub.solver.lrtastar import LRTAstar
    from skdecide.hub.solver.simple_greedy import SimpleGreedy
    from skdecide.hub.solver.pomcp import POMCP
    from skdecide.hub.domain.maze import Maze
    from skdecide.hub.domain.simple_grid_world import SimpleGridWorld
    from skdecide.hub.domain.mastermind import MasterMind
    from skdecide.hub.domain.rock_paper_scissors import RockPaperScissors
    ds = [Maze(), SimpleGridWorld(), MasterMind(3, 2), RockPaperScissors()]
    g = rand_graph(r)
    ds.append(GraphGoalDomain(g, 1))
    names = ['Maze', 'SimpleGridWorld', 'MasterMind', 'RockPaperScissors', 'DeterministicPlanningDomain']
    sc = [LazyAstar, LRTAstar, SimpleGreedy, POMCP]
    # the greedy solver additionally wants the actions to be enumerable
    tr.d.update(domains=[dict(name=n) for n in names], solvers=[dict(name=c.__name__, extra=[True] * len(ds)) for c in sc], live=0)
    for c in range(len(sc)):
        tr.ev('require', c=c + 1, got=[t.__name__ for t in sc[c].get_domain_requirements()])
        for d in range(len(ds)): tr.ev('check', c=c + 1, d=d + 1, yes=bool(sc[c].check_domain(ds[d])))
    for d in range(len(ds)):
        tr.ev('match', d=d + 1, among=[1, 2, 3, 4], got=[sc.index(y) + 1 for y in match_solvers(ds[d], candidates=sc)])

def together(tr, r):
    """Several bundled planners, each with a problem of its own: nobody's plan changes because of what another does."""
    from skdecide.hub.solver.lazy_astar import LazyAstar
    from skdecide.hub.solver.lrtastar import LRTAstar
    from skdecide.hub.solver.simple_greedy import SimpleGreedy
    n = r.randint(2, 4)
    live = []
    for k in range(n):
        c = r.choice([LazyAstar, LazyAstar, LRTAstar, SimpleGreedy])
        if c is SimpleGreedy: live.append(c())
        elif c is LRTAstar: live.append(c(heuristic=lambda d, s: 0, max_iter=30))
        else: live.append(c(heuristic=lambda d, s: 0))
    gs = [rand_graph(r, nmax=5, acyclic=True, density=.7, goals=1) for _ in range(n + 1)]
    for g in gs: g['goal'] = [False] * (g['n'] - 1) + [True]
    tr.d.update(domains=[], solvers=[], live=n)
    at = {}
    def table(s):
        sol, g = live[s], gs[at[s]]
        out = []
        for i in range(1, g['n'] + 1):
            if g['goal'][i - 1] or not any(e['u'] == i for e in g['edges']) or not sol.is_policy_defined_for(S(i)): out.append(-1); continue
            out.append(int(sol.get_next_action(S(i))))
        return out
    for _ in range(12):
        s = r.randrange(n)
        x = r.random()
        if x < .6 or s not in at:
            at[s] = r.randrange(len(gs))
            g = gs[at[s]]
            GraphGoalDomain.solve_with(live[s], lambda: GraphGoalDomain(g, r.randint(1, g['n'])))
        elif x < .8: live[s].reset()
        own = s
        for t in sorted(at): tr.ev('answers', s=t + 1, own=t == own, got=table(t))

def main():
    D = Driver()
    for j in range(1500 if D.thorough else 200):
        r = D.rng('match', j)
        D.run('match', j, lambda tr: play(tr, r), domains=[], solvers=[], live=0)
    D.run('hub', 0, lambda tr: bundled(tr, D.rng('hub')), domains=[], solvers=[], live=0)
    for j in range(300 if D.thorough else 40):
        r = D.rng('together', j)
        D.run('together', j, lambda tr: together(tr, r), domains=[], solvers=[], live=0)
main()
