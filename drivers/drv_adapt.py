"""Domains, solvers and functions called through views of another level (C01)."""
import itertools
from typing import Union, List, Optional
from common import Driver
import skdecide.core as C
from skdecide.core import *
from skdecide.core import autocast, Memory
from skdecide import Domain, Solver
from skdecide.builders.domain import *
from skdecide.builders.solver import *
from common import Driver

def node(t, a='', c=()): return dict(t=t, a=a, c=list(c))
def item(k, x): return node('item', k, [x])
def enc(x):
    if x is None: return node('none')
    if isinstance(x, Memory): return node('mem', '', [enc(y) for y in x])
    if isinstance(x, dict): return node('dict', '', [item(str(k), enc(v)) for k, v in x.items()])
    if isinstance(x, list): return node('list', '', [enc(y) for y in x])
    if isinstance(x, tuple): return node('tuple', '', [enc(y) for y in x])
    if isinstance(x, TransitionValue): return node('value', '%r/%r' % (x.cost, x.reward))
    if isinstance(x, (EnvironmentOutcome, TransitionOutcome)):
        first = x.observation if isinstance(x, EnvironmentOutcome) else x.state
        return node('eout' if isinstance(x, EnvironmentOutcome) else 'tout', repr(x.termination), [enc(first), enc(x.value), enc(x.info)])
    if isinstance(x, SingleValueDistribution): return node('single', '', [item('1', enc(x.get_value()))])
    if isinstance(x, DiscreteDistribution): return node('dist', '', [item(repr(p), enc(y)) for y, p in x.get_values()])
    if isinstance(x, ImplicitDistribution):
        q = [enc(x.sample()) for _ in range(3)]
        return node('implicit', '', [item('', y) for y in q])
    if isinstance(x, Space): return node('space', getattr(x, 'label', '?'))
    return node('atom', '%s %r' % (type(x).__name__, x))

# ---- the interface, for the generator only (the specification has its own table)
L = ('leaf',)
def A(h): return ('agent', h)
def K(h): return ('conc', h)
def M(h): return ('mem', h)
def O(h): return ('opt', h)
def Di(h): return ('dist', h)
ACT, MEM, OBS, VAL, INF, SP = A(K(L)), M(L), A(L), A(('value',)), A(('info',)), ('space',)
ENV = ('outcome', OBS, VAL, INF)
DOM = dict(step=([('action', ACT)], ENV), set_memory=([('memory', MEM)], L), sample=([('memory', MEM), ('action', ACT)], ENV),
    get_next_state_distribution=([('memory', MEM), ('action', ACT)], Di(L)),
    get_transition_value=([('memory', MEM), ('action', ACT), ('next_state', O(L))], VAL),
    is_transition_value_dependent_on_next_state=([], L), is_terminal=([('state', L)], L),
    get_next_state=([('memory', MEM), ('action', ACT)], L), get_enabled_events=([('memory', O(MEM))], SP),
    is_enabled_event=([('event', L), ('memory', O(MEM))], L), get_action_space=([], A(SP)), is_action=([('event', L)], L),
    get_applicable_actions=([('memory', O(MEM))], A(SP)), is_applicable_action=([('action', A(L)), ('memory', O(MEM))], L),
    get_goals=([], A(SP)), is_goal=([('observation', OBS)], L), get_observation_space=([], A(SP)), is_observation=([('observation', OBS)], L),
    get_observation_distribution=([('state', L), ('action', O(ACT))], Di(OBS)), get_observation=([('state', L), ('action', O(ACT))], OBS),
    reset=([], OBS), get_initial_state_distribution=([], Di(L)), get_initial_state=([], L), check_value=([('value', ('value',))], L),
    render=([('memory', O(MEM))], L))
SOL = dict(sample_action=([('observation', OBS)], ACT), is_policy_defined_for=([('observation', OBS)], L), get_next_action=([('observation', OBS)], ACT),
    get_next_action_distribution=([('observation', OBS)], Di(ACT)), get_utility=([('observation', OBS)], L),
    get_q_value=([('observation', OBS), ('action', ACT)], L), solve_from=([('memory', MEM)], L))

class Sp(Space):
    def __init__(self, label): self.label = label
    def contains(self, x): return True

class Lev:
    def __init__(self, multi, par, mem):
        self.multi, self.par, self.mem = multi, par, mem
        self.hist = mem in (History, FiniteHistory)
        self.bases = (MultiAgent if multi else SingleAgent, Parallel if par else Sequential, mem)
    def js(self): return dict(multi=self.multi, par=self.par, hist=self.hist)
    def key(self): return '%s%s%s' % ('MS'[not self.multi], 'PS'[not self.par], self.mem.__name__)
    def cls(self, dyn=(), obs=()):
        a, c, m = self.bases
        return type('Lv', (Domain, a, c) + tuple(dyn) + (m,) + tuple(obs), {})
LEVELS = [Lev(a, c, m) for a in (False, True) for c in (False, True) for m in (History, FiniteHistory, Markovian, Memoryless)]

class Gen:
    def __init__(self, r): self.r = r
    def leaf(self, nodict=False):
        r = self.r
        q = [0, 1, -3, 2.5, '', 's', 'agent', ('t', 1), True, [1, 2], [], (), frozenset([2])]
        if not nodict: q += [{'k': 1}, {'agent': 2, 'z': [3]}, {}]
        return r.choice(q)
    def data(self, h, L, other, nodict=False):
        """Random data for an interface position of level L that has a counterpart at the other level."""
        r, k = self.r, h[0]
        sub = lambda: self.data(h[1], L, other, nodict)
        n = lambda has: r.randint(1, 3) if has else 1
        if k == 'leaf': return self.leaf(nodict)
        if k == 'value': return TransitionValue(cost=r.randint(-3, 3))
        if k == 'info': return r.choice([None, 'i', 7]) if nodict else r.choice(['i', 7, 0, '', {'x': 1}])
        if k == 'space': return Sp('space%d' % r.randint(0, 99))
        if k == 'opt': return None if r.random() < .25 else self.opt(h[1], L, other)
        if k == 'agent': return dict((x, sub()) for x in r.sample(['agent', 'p', 'q', 'a1'], n(other.multi))) if L.multi else sub()
        if k == 'conc': return [sub() for _ in range(n(other.par))] if L.par else sub()
        if k == 'mem': return Memory([sub() for _ in range(n(other.hist))]) if L.hist else sub()
        if k == 'dist':
            x = r.random()
            if x < .35: return SingleValueDistribution(sub())
            if x < .6:
                v = sub()
                return ImplicitDistribution(lambda: v)
            return DiscreteDistribution([(sub(), r.choice([.25, .5, .125])) for _ in range(r.randint(1, 3))])
        if k == 'outcome':
            nd = r.random() < .5
            ag = r.sample(['agent', 'p', 'q', 'a1'], r.randint(1, 3) if other.multi else 1)
            f = lambda hh: dict((x, self.data(hh, L, other, nd)) for x in ag) if L.multi else self.data(hh, L, other, nd)
            cls = r.choice([EnvironmentOutcome, TransitionOutcome])
            return cls(f(L_), f(('value',)), r.random() < .5, f(('info',)))
    def opt(self, h, L, other):
        while True:
            x = self.data(h, L, other)
            if x is not None: return x
L_ = L

class Rec:
    """Stands for one protected method: answers scripted data and remembers what it was passed."""
    def __init__(self): self.seen, self.answer = [], None
    def __call__(self, *args, **kw):
        self.seen.append([enc(a) for a in list(args) + list(kw.values())])
        return self.answer

def instrument(obj, table):
    recs = {}
    for m in table:
        if hasattr(obj, m):
            recs[m] = Rec()
            setattr(obj, '_' + m, recs[m])
    return recs

def call(tr, g, obj, recs, m, table, inner, outer, **extra):
    args, ret = table[m]
    rec = recs[m]
    rec.seen = []
    rec.answer = g.data(ret, inner, outer)
    given = [g.data(h, outer, inner) for _, h in args]
    k = len(given)
    while k and given[k - 1] is None and args[k - 1][1][0] == 'opt' and g.r.random() < .5: k -= 1     # optional ones left out
    cut = g.r.randint(0, k)
    enc_given, enc_ret = [enc(x) for x in given], enc(rec.answer)
    got = getattr(obj, m)(*given[:cut], **{args[i][0]: given[i] for i in range(cut, k)})
    tr.ev('call', m=m, inner=inner.js(), outer=outer.js(), given=enc_given, seen=rec.seen[0] if rec.seen else [], times=len(rec.seen),
          ret=enc_ret, got=enc(got))

DYN = [DeterministicTransitions, EnumerableTransitions, UncertainTransitions, Simulation]
OBSV = [PartiallyObservable, TransformedObservable]
INI = [DeterministicInitialized, UncertainInitialized, Initializable]
def domain_class(r, lev):
    return lev.cls((Constrained, r.choice(DYN[:2]) if r.random() < .7 else r.choice(DYN), Actions, Goals, r.choice(INI[:1] * 3 + INI)), (r.choice(OBSV + OBSV[1:]), Renderable, Rewards))

def solver_class(lev, extra=()):
    class S(Solver, DeterministicPolicies, QValues):
        T_domain = lev.cls()
        def _solve_domain(self, f): self.dom = f()
    return S

def constraints(tr, g, dom, inner, outer):
    """The constraints of the domain, checked by the caller in its own terms."""
    r = g.r
    seen, ans = [], []
    def f(memory, action, next_state):
        seen.append([enc(memory), enc(action), enc(next_state)])
        return ans[0]
    specs = []
    cs = []
    for _ in range(r.randint(1, 3)):
        dep = r.random() < .5
        if r.random() < .5:
            cs.append(ImplicitConstraint(f, dep)); specs.append(('i', dep))
        else:
            rel, b = r.choice(['<', '<=', '>', '>=']), r.randint(-2, 2)
            cs.append(BoundConstraint(f, rel, b, dep)); specs.append((rel, dep, b))
    dom._get_constraints = lambda: cs
    got = dom.get_constraints()
    for k, sp in enumerate(specs):
        c = got[k]
        given = [g.data(MEM, outer, inner), g.data(ACT, outer, inner), g.data(L, outer, inner)]
        del seen[:]
        e = [enc(x) for x in given]
        if sp[0] == 'i':
            ans[:] = [r.random() < .5]
            ok = c.check(*given) == ans[0]
        else:
            ans[:] = [r.randint(-3, 3)]
            if r.random() < .5: ok = c.evaluate(*given) == ans[0]
            else: ok = c.check(*given) == {'<': ans[0] < sp[2], '<=': ans[0] <= sp[2], '>': ans[0] > sp[2], '>=': ans[0] >= sp[2]}[sp[0]]
            ok = ok and c.get_inequality() == sp[0] and c.get_bound() == sp[2]
        ok = ok and c.is_constraint_dependent_on_next_state() == sp[1] and len(got) == len(specs)
        tr.ev('constraint', inner=inner.js(), outer=outer.js(), given=e, seen=seen[0] if seen else [], times=len(seen), same=bool(ok))

def pair(tr, r, inner, outer, third):
    """A domain of one level solved by a solver of another, and again by a third; each sees it in its own terms."""
    g = Gen(r)
    cls = domain_class(r, inner)
    dom = cls.__new__(cls)
    recs = instrument(dom, DOM)
    s1, s2 = solver_class(outer)(), solver_class(third)()
    for s, lev in ((s1, outer), (s2, third), (s1, outer))[:r.choice([1, 2, 3])]:
        cls.solve_with(s, lambda: dom)
        ms = list(recs)
        r.shuffle(ms)
        for m in ms[:14]: call(tr, g, s.dom, recs, m, DOM, inner, lev)
        constraints(tr, g, s.dom, inner, lev)
        srecs = instrument(s, SOL)
        for m in srecs: call(tr, g, s, srecs, m, SOL, lev, inner)
    # the solver now serves a domain of yet another level, then the first again
    cls2 = domain_class(r, third)
    dom2 = cls2.__new__(cls2)
    recs2 = instrument(dom2, DOM)
    for c, d, rc, lv in ((cls2, dom2, recs2, third), (cls, dom, recs, inner)):
        c.solve_with(s1, lambda: d)
        srecs = instrument(s1, SOL)
        for m in srecs: call(tr, g, s1, srecs, m, SOL, outer, lv)
        for m in r.sample(list(rc), 5): call(tr, g, s1.dom, rc, m, DOM, lv, outer)

# ---- functions with arbitrary annotations
def text(h):
    k = h[0]
    if k == 'leaf': return 'D.T_state'
    if k in ('agent', 'conc', 'mem'): return 'D.T_%s[%s]' % (dict(agent='agent', conc='concurrency', mem='memory')[k], text(h[1]))
    if k == 'opt': return 'Optional[%s]' % text(h[1])
    if k == 'dist': return 'Distribution[%s]' % text(h[1])
    if k == 'outcome': return 'EnvironmentOutcome[%s, %s, %s]' % tuple(text(x) for x in h[1:])
def tla(h):
    return dict(k=h[0], sub=[tla(x) for x in h[1:]])
def hint(r, depth, top=True):
    if depth == 0 or r.random() < .15: return L
    k = r.choice(['agent', 'conc', 'mem', 'agent', 'conc', 'mem', 'dist'] + (['outcome'] if top else []))
    if k == 'outcome':
        return ('outcome', hint(r, depth - 1, False), hint(r, depth - 1, False), hint(r, depth - 1, False))
    h = (k, hint(r, depth - 1, False))
    return ('opt', h) if r.random() < .15 else h
def fdata(g, h, L, other):
    if h[0] == 'outcome':
        while True:                      # no defaults here: an outcome without value or info is given some
            q = [fdata(g, x, L, other) for x in h[1:]]
            if not loose(q[1]) and not loose(q[2]): return EnvironmentOutcome(q[0], q[1], g.r.random() < .5, q[2])
    if h[0] == 'opt': return None if g.r.random() < .3 else fdata(g, h[1], L, other)
    return g.data(h, L, other)
def funcs(tr, r, n):
    g = Gen(r)
    for _ in range(n):
        inner, outer = r.choice(LEVELS), r.choice(LEVELS)
        k = r.randint(1, 3)
        hs = [hint(r, r.randint(1, 4)) for _ in range(k)]
        hr = hint(r, r.randint(1, 4))
        seen, ans = [], [None]
        ns = {}
        exec('def f(%s): seen.append([%s]); return ans[0]' % (', '.join('x%d' % i for i in range(k)), ', '.join('enc(x%d)' % i for i in range(k))), dict(seen=seen, ans=ans, enc=enc), ns)
        f = ns['f']
        f.__annotations__ = dict([('x%d' % i, text(h)) for i, h in enumerate(hs)] + [('return', text(hr))])
        ans[0] = fdata(g, hr, inner, outer)
        given = [fdata(g, h, outer, inner) for h in hs]
        eg, er = [enc(x) for x in given], enc(ans[0])
        got = autocast(f, inner.cls(), outer.cls())(*given)
        tr.ev('fn', inner=inner.js(), outer=outer.js(), args=[tla(h) for h in hs], hint=tla(hr), given=eg, seen=seen[0], ret=er, got=enc(got))
def loose(x):
    return x is None or (isinstance(x, dict) and any(loose(y) for y in x.values())) or (isinstance(x, (list, Memory)) and any(loose(y) for y in x))

def main():
    D = Driver()
    for n, (a, b) in enumerate(itertools.product(LEVELS, LEVELS)):
        for j in range(6 if D.thorough else 1):
            r = D.rng('pair', n, j)
            D.run('pair', '%s-%s-%d' % (a.key(), b.key(), j), lambda tr: pair(tr, r, a, b, r.choice(LEVELS)))
    for j in range(300 if D.thorough else 40):
        r = D.rng('fn', j)
        D.run('fn', j, lambda tr: funcs(tr, r, 30))
main()
