"""Graph explorers: builds the explored graph of random domains and queries it as a domain."""
from common import *
from graphs import *
from skdecide import *
from skdecide.builders.domain import *

D_ = Driver()

class UD(GoalMDPDomain):
    T_state = S
    T_observation = S
    T_event = int
    T_value = float
    T_predicate = bool
    T_info = None

def rand_m(r, unc):
    wide = r.random() < 0.2
    n = r.randint(9, 20) if wide else r.randint(1, 6)
    den = r.choice([4, 4, 4, 4096])        # 4096: some outcomes are very unlikely
    acts = []
    for u in range(n):
        row = []
        for a in r.sample(range(1, 13), r.choice([0, 0, 1, 9, 12]) if wide else r.choice([0, 1, 1, 2, 2, 3])):
            k = r.randint(1, min(3, n)) if unc else 1
            cuts = sorted(r.sample(range(1, 4) if den == 4 else (1, 2, den - 2, den - 1), k - 1))
            ws = [b - c for b, c in zip(cuts + [den], [0] + cuts)]
            vs = r.sample(range(1, n + 1), k)
            outs = [dict(v=v, w=w, c=r.randint(0, 5)) for v, w in zip(vs, ws)]
            if unc and k < n and r.random() < 0.2:
                outs.insert(r.randint(0, k), dict(v=r.choice([x for x in range(1, n + 1) if x not in vs]), w=0, c=1))
            row.append(dict(a=a, outs=outs))
        acts.append(row)
    goal = [r.random() < (0.08 if wide else 0.2) for _ in range(n)]
    term = [(unc and r.random() < 0.15) for g in goal]
    return dict(n=n, init=r.randint(1, n), acts=acts, goal=goal, term=term, stopterm=unc, den=den)

class Sp(EnumerableSpace, SamplableSpace):
    def __init__(self, xs): self.xs = list(xs)
    def get_elements(self): return self.xs
    def sample(self): return self.xs[0]

def row(m, s, a): return [x for x in m['acts'][s.i - 1] if x['a'] == a][0]['outs']

class UDom(UD):
    def __init__(self, m): self.m = m
    def _get_next_state_distribution(self, memory, action):
        return DiscreteDistribution([(S(o['v']), o['w'] / self.m['den']) for o in row(self.m, memory, action)])
    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=[o['c'] for o in row(self.m, memory, action) if o['v'] == next_state.i][0])
    def _is_terminal(self, state): return self.m['term'][state.i - 1]
    def _get_action_space_(self): return Sp(range(1, 13))
    def _get_applicable_actions_from(self, memory): return Sp([x['a'] for x in self.m['acts'][memory.i - 1]])
    def _get_goals_(self): return ImplicitSpace(lambda s: self.m['goal'][s.i - 1])
    def _get_initial_state_(self): return S(self.m['init'])
    def _get_observation_space_(self): return Sp([S(i + 1) for i in range(self.m['n'])])

class DDom(DetPlan):
    def __init__(self, m): self.m = m
    def _get_next_state(self, memory, action): return S(row(self.m, memory, action)[0]['v'])
    def _get_transition_value(self, memory, action, next_state=None):
        return TransitionValue(cost=row(self.m, memory, action)[0]['c'])
    def _is_terminal(self, state): return self.m['goal'][state.i - 1]
    _get_action_space_ = UDom._get_action_space_
    _get_applicable_actions_from = UDom._get_applicable_actions_from
    _get_goals_ = UDom._get_goals_
    _get_initial_state_ = UDom._get_initial_state_
    _get_observation_space_ = UDom._get_observation_space_

def whole(x): return toint(x)

def explore(tr, m, kind, bounds, init):
    maxn, maxe, maxp = bounds
    kw = dict(max_nodes=maxn, max_edges=maxe, max_path=maxp)
    big = lambda x: 1000 if x is None else x
    if kind == 'unc':
        from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration
        dom = UDom(m)
        score = None if tr.d['inst']['score'] == 0 else (lambda s, c=iter(range(100000)): ((s.i * 7) % 5, next(c)))
        g = DFSExploration(dom, score_function=score, **kw).build_graph_domain(*init)
        nx = g.to_networkx()
        nodes = [nx.nodes[x]['state'] for x in nx.nodes]
        rows = []
        for s, am in g.next_state_map.items():
            rr = [dict(a=a, v=t.i, w=whole(p * m['den']), c=whole(c)) for a, ts in am.items() for t, (p, c) in ts.items()]
            if rr: rows.append(dict(u=s.i, rows=rr))
        pairs = {(nx.nodes[a]['state'].i, nx.nodes[b]['state'].i) for a, b in nx.edges}
        if pairs != {(x['u'], y['v']) for x in rows for y in x['rows']}:
            tr.exc('to_networkx', 'graph edges differ from the transition map')
        tr.ev('graph', nodes=[s.i for s in nodes], rows=rows, goal=[bool(g.is_goal(s)) for s in nodes],
              term=[bool(g.is_terminal(s)) for s in nodes], maxn=big(maxn), maxe=big(maxe), maxp=big(maxp), uncertain=True)
        for x in rows:
            s = S(x['u'])
            sp = g.get_applicable_actions(s)
            acts = list(sp.get_elements())
            rr = []
            for a in acts:
                dist = g.get_next_state_distribution(s, a)
                for t, p in dist.get_values():
                    rr.append(dict(a=a, v=t.i, w=whole(p * m['den']), c=whole(g.get_transition_value(s, a, t).cost)))
                t = dist.sample()
                if t not in [y for y, _ in dist.get_values()]: tr.exc('sample', 'outside the support')
            tr.ev('query', u=s.i, acts=acts, inspace=[bool(sp.contains(a)) for a in acts], outside=bool(sp.contains(99)),
                  sampled=sp.sample(), rows=rr)
    else:
        from skdecide.hub.solver.graph_explorer.DFSExploration import DFSExploration
        from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration
        dom = DDom(m)
        g = (DFSExploration if kind == 'dfs' else FullSpaceExploration)(dom, **kw).build_graph_domain(*init)
        nodes = list(g.next_state_map)
        rows = []
        for s, am in g.next_state_map.items():
            rr = [dict(a=a, v=t.i, w=m['den'], c=whole(g.next_state_attributes[s][a]['cost'])) for a, t in am.items()]
            if rr: rows.append(dict(u=s.i, rows=rr))
        tr.ev('graph', nodes=[s.i for s in nodes], rows=rows, goal=[bool(g.is_goal(s)) for s in nodes],
              term=[bool(g.is_terminal(s)) for s in nodes], maxn=big(maxn), maxe=big(maxe), maxp=big(maxp), uncertain=False)
        for x in rows:
            s = S(x['u'])
            sp = g.get_applicable_actions(s)
            acts = list(sp.get_elements())
            rr = []
            for a in acts:
                t = g.get_next_state(s, a)
                rr.append(dict(a=a, v=t.i, w=m['den'], c=whole(g.get_transition_value(s, a, t).cost)))
            tr.ev('query', u=s.i, acts=acts, inspace=[bool(sp.contains(a)) for a in acts], outside=bool(sp.contains(99)),
                  sampled=sp.sample(), rows=rr)

if __name__ == '__main__':
    N = 600 * (10 if D_.thorough else 1)
    for i in range(N):
        r = D_.rng('explore', i)
        kind = r.choice(['unc', 'unc', 'dfs', 'full'])
        m = rand_m(r, kind == 'unc')
        b = r.choice(['none', 'none', 'big', 'big', 'small'])
        bounds = dict(none=(None,) * 3, big=(100, 100, 100), small=(r.randint(1, 4), r.randint(1, 8), r.randint(0, 3)))[b]
        if r.random() < 0.3:
            m['init'], other = r.randint(1, m['n']), m['init']
            d = dict(m, init=other)     # the domain's own initial state differs from the requested one
            init = (S(m['init']),)
        else:
            d, init = m, ()
        D_.run('explore', i, lambda tr: explore(tr, d, kind, bounds, init), dict(m=m, kind=kind, score=r.randint(0, 1)))
