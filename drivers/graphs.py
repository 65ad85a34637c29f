"""Random finite transition graphs and the goal domains they define (shared by the planner drivers)."""
import random
from skdecide import DeterministicPlanningDomain, TransitionValue, EnumerableSpace, ImplicitSpace, Domain
from skdecide.builders.domain import *

INF = 1000000

def rand_graph(r, nmax=6, density=None, costs=(0, 9), acyclic=False, goals=None, actions=None, selfloop=True):
    n = r.randint(1, nmax)
    edges = []
    p = density if density is not None else r.choice([0.2, 0.35, 0.6])
    for u in range(1, n + 1):
        a = 0
        for v in range(1, n + 1):
            if acyclic and v <= u:
                continue
            if u == v and (not selfloop or r.random() > 0.15):
                continue
            if r.random() < p:
                for _ in range(1 if r.random() < 0.85 else 2):
                    a += 1
                    edges.append(dict(u=u, a=a, v=v, c=r.randint(*costs)))
    # actions are renumbered in a random order so that enumeration order is unrelated to targets
    by = {}
    for e in edges:
        by.setdefault(e['u'], []).append(e)
    out = []
    for u in sorted(by):
        es = by[u]
        r.shuffle(es)
        for i, e in enumerate(es):
            out.append(dict(u=u, a=i + 1, v=e['v'], c=e['c']))
    k = goals if goals is not None else r.choice([0, 1, 1, 1, 2])
    g = [False] * n
    for x in r.sample(range(n), min(k, n)):
        g[x] = True
    return dict(n=n, edges=out, goal=g)

def cost_to_go(g):
    d = [INF] * (g['n'] + 1)
    for i, x in enumerate(g['goal']):
        if x: d[i + 1] = 0
    for _ in range(g['n'] + 1):
        for e in g['edges']:
            d[e['u']] = min(d[e['u']], e['c'] + d[e['v']] if d[e['v']] < INF else INF)
    return d[1:]

class Listed(EnumerableSpace):
    def __init__(self, xs): self.xs = list(xs)
    def get_elements(self): return self.xs

class S:
    """A state: hashable, compared by value, a fresh object every time it is produced."""
    __slots__ = ('i',)
    def __init__(self, i): self.i = i
    def __eq__(self, o): return isinstance(o, S) and o.i == self.i
    def __hash__(self): return hash(('S', self.i))
    def __repr__(self): return 's%d' % self.i

class DetPlan(DeterministicPlanningDomain):
    T_state = S
    T_observation = S
    T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

class GraphGoalDomain(DetPlan):
    def __init__(self, g, init):
        self.g, self.init = g, init
        self.out = {u: {} for u in range(1, g['n'] + 1)}
        for e in g['edges']: self.out[e['u']][e['a']] = (e['v'], e['c'])
    def _get_next_state(self, memory, action): return S(self.out[memory.i][action][0])
    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=self.out[memory.i][action][1])
    def _is_terminal(self, state): return self._is_goal(state)
    def _get_action_space_(self): return Listed(range(1, 1 + max([len(x) for x in self.out.values()] + [1])))
    def _get_applicable_actions_from(self, memory): return Listed(sorted(self.out[memory.i]))
    def _get_goals_(self): return ImplicitSpace(lambda s: self.g['goal'][s.i - 1])
    def _get_initial_state_(self): return S(self.init)
    def _get_observation_space_(self): return Listed([S(i) for i in range(1, self.g['n'] + 1)])

def toint(x):
    """Integer image of a number computed by the code (floats must be whole)."""
    try:
        if x == float('inf'): return INF
        if x == float('-inf'): return -INF
        if int(x) == x and abs(int(x)) < INF: return int(x)
    except (TypeError, ValueError, OverflowError):
        pass
    return -777777
