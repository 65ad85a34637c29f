"""The data types of the core (values, outcomes, distributions, spaces, constraints) and the gym spaces of the hub."""
import random
from enum import Enum
from dataclasses import dataclass
from common import Driver
from skdecide.core import *
from skdecide.core import EmptySpace

def values(tr, r):
    for _ in range(40):
        hr, hc, x, c = r.random() < .6, r.random() < .6, r.randint(-4, 4), r.randint(-4, 4)
        kw = {}
        if hr: kw['reward'] = x
        if hc: kw['cost'] = c
        v = TransitionValue(**kw)
        tr.ev('tv', hasr=hr, rin=x, hasc=hc, cin=c, r=int(v.reward), c=int(v.cost))
    for _ in range(20):
        n = r.choice([0, 0, 1, 2, 3])
        o = r.randint(0, 3) if n == 0 else {'a%d' % i: r.randint(0, 3) for i in range(n)}
        cls = r.choice([EnvironmentOutcome, TransitionOutcome])
        given = r.choice(['none', 'none', 'value', 'info'])     # what is given stays as given, the rest is one per agent
        z = r.random() < .5
        kw = {} if given == 'none' else {given: {k: None for k in o} if n and z else None} if given == 'info' else {
            'value': {k: TransitionValue() for k in o} if n and z else TransitionValue()}
        e = cls(o, **kw)
        if n and given == 'value' and not z: e.value = {k: e.value for k in o}
        vs = list(e.value.values()) if n else [e.value]
        inf = list(e.info.values()) if n else [e.info]
        tr.ev('outcome', n=n, nv=len(vs), ni=len(inf), zero=all(v.reward == 0 and v.cost == 0 for v in vs) and all(i is None for i in inf) and not e.termination,
              keys=n == 0 or (set(e.value) == set(o) and set(e.info) == set(o)))
        f0 = dict(obs=r.randint(0, 5), rew=r.randint(-3, 3), term=r.randint(0, 1), info=r.randint(0, 3))
        first = 'observation' if cls is EnvironmentOutcome else 'state'
        e = cls(**{first: f0['obs']}, value=TransitionValue(reward=f0['rew']), termination=bool(f0['term']), info=f0['info'])
        fld = r.choice(list(f0)); new = r.randint(0, 1)
        ch = {first: new} if fld == 'obs' else {'value': TransitionValue(reward=new)} if fld == 'rew' else {'termination': bool(new)} if fld == 'term' else {'info': new}
        g = e.replace(**ch)
        rec = lambda y: dict(obs=getattr(y, first), rew=y.value.reward, term=int(y.termination), info=y.info)
        tr.ev('replace', before=f0, field=fld, new=new, after=rec(g), kept=rec(e))
        d = e.asdict(); t = e.astuple()
        tr.ev('values', q=[f0['obs'], f0['rew'], f0['term'], f0['info']], got=[d[first], d['value']['reward'], int(d['termination']), d['info']])
        tr.ev('values', q=[f0['obs'], f0['rew'], f0['term'], f0['info']], got=[t[0], t[1][0], int(t[2]), t[3]])

def dists(tr, r):
    random.seed(r.random())
    for _ in range(15):
        n = r.randint(1, 5)
        q = [[r.randint(1, 6), r.choice([0, 1, 1, 2, 5])] for _ in range(n)]
        if not any(w for _, w in q): q[0][1] = 1
        k = r.choice([1, 10, sum(w for _, w in q)])
        d = DiscreteDistribution([(x, w / k) for x, w in q])
        tr.ev('draws', q=q, xs=[d.sample() for _ in range(40)])
        tr.ev('values', q=q, got=[[x, int(round(p * k))] for x, p in d.get_values()])
        x = r.randint(1, 6)
        s = SingleValueDistribution(x)
        tr.ev('draws', q=[[x, 1]], xs=[s.sample() for _ in range(5)] + [s.get_value()])
        tr.ev('values', q=[[x, 1]], got=[[a, int(b)] for a, b in s.get_values()])
        i = ImplicitDistribution(lambda: x)
        tr.ev('draws', q=[[x, 1]], xs=[i.sample() for _ in range(5)])

class Els(EnumerableSpace):
    def __init__(self, f): self.f = f
    def get_elements(self): return self.f()
class E3(Enum):
    A = 4; B = 2; C = 7
@dataclass(unsafe_hash=True)
class P:
    x: int
    y: int

def spaces(tr, r):
    from skdecide.hub.space import gym as G
    import gym.spaces as gs
    for _ in range(10):
        els = r.sample(range(8), r.randint(0, 5))
        form = r.choice([list, tuple, set, iter])
        for sp in (Els(lambda: form(els)), ImplicitSpace(lambda z: z in els)) + (() if not els else (G.ListSpace(els),)) + (() if els else (EmptySpace(),)):
            for x in range(8):
                y = x in sp if r.random() < .5 else sp.contains(x)
                tr.ev('member', x=x, els=els, yes=bool(y))
            if hasattr(sp, 'get_elements'):
                tr.ev('elements', els=els, got=list(sp.get_elements()))
    seed = r.randint(0, 10 ** 6)
    mk = [lambda: G.EnumSpace(E3), lambda: G.ListSpace(r.sample(range(10), r.randint(1, 6))), lambda: G.DiscreteSpace(r.randint(1, 5)),
          lambda: G.BoxSpace(-1., 2., (2,)), lambda: G.MultiDiscreteSpace([2, 3]), lambda: G.MultiBinarySpace(3),
          lambda: G.TupleSpace([gs.Discrete(2), gs.Discrete(3)]), lambda: G.DictSpace({'a': gs.Discrete(2)}),
          lambda: G.DataSpace(P, {'x': gs.Discrete(2), 'y': gs.Discrete(3)}), lambda: G.ListSpace(['u', 'v', (1, 2)])]
    key = lambda x: repr(sorted(x.items())) if isinstance(x, dict) else repr(x.tolist() if hasattr(x, 'tolist') else x)
    for f in mk:
        sp = f()
        sp._gym_space.seed(seed)
        name = type(sp).__name__
        for _ in range(8):
            x = sp.sample()
            tr.ev('sampled', space=name, yes=bool(sp.contains(x)), inels=not hasattr(sp, 'get_elements') or x in list(sp.get_elements()))
            u = sp.to_unwrapped([x, x])
            back = list(sp.from_unwrapped(u))
            ok = len(back) == 2 and all(key(b) == key(x) for b in back)
            if name in ('EnumSpace', 'ListSpace', 'DataSpace'):   # what the wrapped space understands
                ok = ok and all(sp.unwrapped().contains(y) for y in u)
            tr.ev('roundtrip', space=name, how='unwrapped', same=ok)
            if name in ('EnumSpace', 'ListSpace', 'DataSpace', 'DiscreteSpace'):
                back = list(sp.from_jsonable(sp.to_jsonable([x])))
                tr.ev('roundtrip', space=name, how='json', same=len(back) == 1 and key(back[0]) == key(x))
    if True:
        sp = G.EnumSpace(E3)
        tr.ev('elements', els=sorted(x.value for x in E3), got=[x.value for x in sp.get_elements()])
        for x in (4, 2, 9, 'A'):
            tr.ev('member', x=0, els=[], yes=bool(sp.contains(x)))
        for x in E3:
            tr.ev('member', x=x.value, els=[4, 2, 7], yes=bool(sp.contains(x)))

def constraints(tr, r):
    for _ in range(30):
        v, b, rel, dep = r.randint(0, 3), r.randint(0, 3), r.choice(['<', '<=', '>', '>=']), r.random() < .5
        c = BoundConstraint(lambda m, a, n=None: m + a + (n or 0), rel, b, dep)
        m = r.randint(-3, 3); n = r.randint(0, 2); a = v - m - n
        tr.ev('bound', v=v, rel=rel, b=b, dep=dep, yes=bool(c.check(m, a, n)), grel=c.get_inequality(), gb=int(c.get_bound()), ev=int(c.evaluate(m, a, n)),
              gdep=bool(c.is_constraint_dependent_on_next_state()))
        c = ImplicitConstraint(lambda m, a, n=None: m + a + (n or 0) <= b, dep)
        tr.ev('bound', v=v, rel='<=', b=b, dep=dep, yes=bool(c.check(m, a, n)), grel='<=', gb=b, ev=v, gdep=bool(c.is_constraint_dependent_on_next_state()))

def main():
    D = Driver()
    for j in range(20 if D.thorough else 4):
        for f in (values, dists, spaces, constraints):
            r = D.rng('core', f.__name__, j)
            D.run(f.__name__, j, lambda tr: f(tr, r))
main()
