"""Gym environments (classic interface) used as domains and domains used as Gym environments; discretised action spaces; state features."""
from __future__ import annotations
import contextlib, io, random, warnings
from collections import OrderedDict
from enum import Enum
from dataclasses import dataclass
from common import Driver
warnings.simplefilter('ignore')
import gym, numpy as np
from gym import spaces as S
from skdecide.hub.domain.gym import (GymDomain, DeterministicInitializedGymDomain, GymWidthDomain, GymDiscreteActionDomain, DeterministicGymDomain,
    CostDeterministicGymDomain, GymPlanningDomain, GymDomainStateProxy, GymDomainHashable, AsGymEnv)
from skdecide.hub.space.gym import EnumSpace, ListSpace, DataSpace
from skdecide import DeterministicPlanningDomain, TransitionValue, Domain
from skdecide.builders.domain import *

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
BAD = -777777

# ---------------------------------------------------------------- observations of several shapes carrying a code
def shape(kind, n):
    if kind == 'int': return S.Discrete(n), lambda c: c
    if kind == 'box': return S.Box(-99, 99, (2,)), lambda c: np.array([c, -c], dtype=np.float32)
    if kind == 'multi': return S.MultiDiscrete([n, 2]), lambda c: np.array([c, c % 2])
    if kind == 'tuple': return S.Tuple((S.Discrete(n), S.Box(-99, 99, (1, 2)))), lambda c: (c, np.array([[c, 1]], dtype=np.float32))
    return S.Dict(a=S.Discrete(n), b=S.MultiBinary(3)), lambda c: OrderedDict(a=c, b=np.array([c & 1, (c >> 1) & 1, (c >> 2) & 1]))
def same(x, y):
    if isinstance(x, dict): return isinstance(y, dict) and list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, tuple): return isinstance(y, tuple) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, np.ndarray): return isinstance(y, np.ndarray) and x.shape == y.shape and bool((x == y).all())
    return not isinstance(y, (dict, tuple, np.ndarray)) and x == y

def twin(o):
    """The same observation with its numbers written as another type."""
    if isinstance(o, dict): return type(o)((k, twin(v)) for k, v in o.items())
    if isinstance(o, tuple): return tuple(twin(v) for v in o)
    if isinstance(o, np.ndarray): return o.astype(np.float64)
    return float(o)
class Env(gym.Env):
    """A table; its k-th reset goes to the k-th start."""
    def __init__(self, E, kind, na):
        self.E, self.pos, self.k = E, 0, 0
        self.observation_space, self.build = shape(kind, 9)
        self.action_space = S.Discrete(na)
    def see(self): return self.build(self.E['obs'][self.pos - 1])
    def reset(self):
        self.pos = self.E['starts'][self.k % len(self.E['starts'])]; self.k += 1
        return self.see()
    def step(self, a):
        x = self.E['step'][self.pos - 1][a]; self.pos = x['to']
        return self.see(), x['r'], x['done'], dict(at=self.pos)
    def close(self): pass

def table(r, na):
    n = r.randint(2, 6)
    obs = list(range(n)); r.shuffle(obs)
    if r.random() < .4: obs[r.randrange(n)] = obs[0]
    return dict(step=[[dict(to=r.randint(1, n), r=r.randint(-4, 4), done=r.random() < .2) for _ in range(na)] for _ in range(n)], obs=obs, starts=[r.randint(1, n) for _ in range(r.randint(1, 3))])

def code(env, o):
    o = o._state if isinstance(o, GymDomainStateProxy) else o
    return next((c for c in range(9) if same(env.build(c), o)), BAD)
GET = lambda env: env.pos
def PUT(env, p): env.pos = p

def fam_live(tr, r):
    na = r.randint(1, 3); E = table(r, na); env = Env(E, r.choice(['int', 'box', 'multi', 'tuple', 'dict']), na)
    fixed = r.random() < .6; snap = r.random() < .5; proxy = r.random() < .5
    if fixed: dom = DeterministicInitializedGymDomain(env, PUT if snap else None, GET if snap else None)
    else: dom = (GymDomainHashable if proxy else GymDomain)(env)
    tr.d.update(kind='fixed' if fixed else 'live', E=E, form=0, plan=False)
    tr.ev('spaces', same=dom.get_action_space().unwrapped() == env.action_space and dom.get_observation_space().unwrapped() == env.observation_space
          and all(dom.get_observation_space().contains(env.build(c)) == env.observation_space.contains(env.build(c)) for c in range(12)))
    H = []; o = dom.reset(); tr.ev('reset', obs=code(env, o), form=0); H.append(o)
    for _ in range(r.randint(3, 14)):
        q = r.random()
        if q < .2: o = dom.reset(); tr.ev('reset', obs=code(env, o), form=0); H.append(o)
        elif q < .35 and fixed: h = r.randrange(len(H)); dom.set_memory(H[h]); tr.ev('put', h=h + 1)
        else:
            a = r.randrange(na)
            try:
                x = dom.step(a); tr.ev('step', a=a + 1, obs=code(env, x.observation), r=x.value.reward, c=x.value.cost, done=x.termination, info=x.info['at'], form=0); H.append(x.observation)
            except Exception as ex: raise
    for _ in range(4):
        if isinstance(H[0], GymDomainStateProxy):
            x, y = r.choice(H), r.choice(H)
            tr.ev('equal', x=code(env, x), y=code(env, y), eq=x == y, samehash=hash(x) == hash(y))

    for _ in range(3):
        x, y = r.randrange(9), r.randrange(9)
        if r.random() < .5: y = x
        p, q = GymDomainStateProxy(env.build(x)), GymDomainStateProxy(twin(env.build(y)))
        tr.ev('equal', x=x, y=y, eq=p == q, samehash=hash(p) == hash(q))

def fam_free(tr, r):
    na = r.randint(1, 3); E = table(r, na); kind = r.choice(['int', 'box', 'multi', 'tuple', 'dict']); env = Env(E, kind, na)
    snap = r.random() < .5; plan = r.random() < .6; args = (PUT, GET) if snap else (None, None)
    maxd, byend = r.randint(1, 5), r.random() < .5
    dom = GymPlanningDomain(env, *args, termination_is_goal=byend, max_depth=maxd) if plan else r.choice([DeterministicGymDomain, CostDeterministicGymDomain])(env, *args)
    tr.d.update(kind='free', E=E, form=0, plan=plan, maxd=maxd, byend=byend)
    goal = lambda s: bool(dom.is_goal(s)) if plan else False
    o = quiet(dom.reset); H = [o]; tr.ev('reset', obs=code(env, o), form=0)
    for _ in range(r.randint(3, 16)):
        q = r.random(); a = r.randrange(na)
        if q < .5:
            h = r.randrange(len(H)); n = quiet(dom.get_next_state, H[h], a); v = dom.get_transition_value(H[h], a, n)
            tr.ev('next', h=h + 1, a=a + 1, obs=code(env, n), r=v.reward, c=v.cost, over=bool(dom.is_terminal(n)), goal=goal(n)); H.append(n)
        elif q < .65: h = r.randrange(len(H)); tr.ev('again', h=h + 1, obs=code(env, H[h]), over=bool(dom.is_terminal(H[h])), goal=goal(H[h]))
        elif q < .72: o = quiet(dom.reset); H.append(o); tr.ev('reset', obs=code(env, o), form=0)
        elif q < .8: h = r.randrange(len(H)); dom.set_memory(H[h]); tr.ev('put', h=h + 1)
        else: x = quiet(dom.step, a); H.append(x.observation); tr.ev('step', a=a + 1, obs=code(env, x.observation), r=x.value.reward, c=x.value.cost, done=x.termination, info=0, form=0)
    x, y = r.choice(H), r.choice(H)
    tr.ev('equal', x=code(env, x), y=code(env, y), eq=x == y, samehash=hash(x) == hash(y))

# ---------------------------------------------------------------- a domain as an environment
class DB(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, Markovian, FullyObservable, Rewards):
    T_state = str; T_observation = T_state; T_event = str; T_value = float; T_predicate = bool; T_info = None
class Table(DB):
    def __init__(self, E, ss, As): self.E, self.ss, self.As = E, ss, As
    def i(self, s): return list(self.ss.get_elements()).index(s)
    def _get_next_state(self, m, a): return list(self.ss.get_elements())[self.row(m, a)['to'] - 1]
    def row(self, m, a): return self.E['step'][self.i(m)][list(self.As.get_elements()).index(a)]
    def _get_transition_value(self, m, a, n=None): return TransitionValue(reward=self.row(m, a)['r'])
    def _is_terminal(self, s): return self.E['end'][self.i(s)]
    def _get_action_space_(self): return self.As
    def _get_observation_space_(self): return self.ss
    def _get_initial_state_(self): return list(self.ss.get_elements())[self.E['starts'][0] - 1]

def fam_as(tr, r):
    na = r.randint(1, 3); E = table(r, na); n = len(E['obs']); E['obs'] = list(range(n)); E['end'] = [r.random() < .2 for _ in range(n)]
    for row in E['step']:
        for x in row: x['done'] = E['end'][x['to'] - 1]
    def sp(p, k):
        names = [p + str(i) for i in range(k)]
        return EnumSpace(Enum(p, names)) if r.random() < .5 else ListSpace(names)
    dom = Table(E, sp('s', n), sp('a', na)); unwrap = r.random() < .6
    env = AsGymEnv(dom, unwrap)
    els, acts = list(dom.ss.get_elements()), list(dom.As.get_elements())
    tr.d.update(kind='as', E=E, form=1 if unwrap else 0, plan=False)
    tr.ev('spaces', same=(env.action_space == S.Discrete(na) and env.observation_space == S.Discrete(n)) if unwrap else (env.action_space is dom.get_action_space() and env.observation_space is dom.get_observation_space()))
    def dec(o):
        if o in els: return els.index(o), 0
        return (int(o), 1) if isinstance(o, (int, np.integer)) else (BAD, 1)
    c, f = dec(env.reset()); tr.ev('reset', obs=c, form=f)
    for _ in range(r.randint(2, 12)):
        if r.random() < .15: c, f = dec(env.reset()); tr.ev('reset', obs=c, form=f)
        else:
            a = r.randrange(na); o, rew, done, info = env.step(a if unwrap else acts[a]); c, f = dec(o)
            tr.ev('step', a=a + 1, obs=c, form=f, r=int(rew), c=-int(rew), done=bool(done), info=0 if info == {} else 1)

# ---------------------------------------------------------------- discretised actions
def node(t, n=(), lo=(), hi=(), kids=()): return dict(t=t, n=list(n), lo=list(lo), hi=list(hi), kids=list(kids))
def space(r, f, depth=0, box=True, dec=1):
    t = r.choice(['discrete', 'multidiscrete', 'multibinary'] + ['box'] * (2 if box else 0) + (['tuple', 'dict'] if depth < 2 else []))
    if t == 'discrete': n = r.randint(1, 5); return S.Discrete(n), node(t, [n])
    if t == 'multidiscrete': n = [r.randint(1, 4) for _ in range(r.randint(1, 3))]; return S.MultiDiscrete(n), node(t, n)
    if t == 'multibinary': n = r.randint(1, 3); return S.MultiBinary(n), node(t, [n])
    if t == 'box':
        sh = r.choice([(1,), (2,), (1, 2), (1,)]); k = int(np.prod(sh)); lo = [r.randint(-4, 3) for _ in range(k)]; hi = [x + (f - 1) * r.randint(1, 3) for x in lo]
        return S.Box(np.array(lo, dtype=np.float32).reshape(sh), np.array(hi, dtype=np.float32).reshape(sh)), node(t, [], lo, hi)
    ks = [space(r, f, depth + 1, box) for _ in range(r.randint(1, 2))]
    if t == 'tuple': return S.Tuple(tuple(k for k, _ in ks)), node(t, kids=[k for _, k in ks])
    names = sorted(r.sample('abcd', len(ks)))
    return S.Dict({n: k for n, (k, _) in zip(names, ks)}), node(t, kids=[k for _, k in ks])
def flat(sp, x):
    if isinstance(sp, S.Discrete): return [whole(x)]
    if isinstance(sp, S.Tuple): return [y for s, v in zip(sp.spaces, x) for y in flat(s, v)]
    if isinstance(sp, S.Dict): return [y for k in sp.spaces for y in flat(sp.spaces[k], x[k])]
    return [whole(y) for y in np.asarray(x).reshape(-1)]
def whole(x):
    x = float(x); return int(round(x)) if abs(x - round(x)) < 1e-4 and abs(x) < 1e6 else BAD
def size(n, f):
    if n['t'] == 'box': return f ** len(n['lo'])
    if n['t'] == 'multibinary': return 2 ** n['n'][0]
    if n['kids']: return int(np.prod([size(k, f) for k in n['kids']]))
    return int(np.prod(n['n']))

class Stub(gym.Env):
    def __init__(self, a, o=None): self.action_space, self.observation_space = a, o or S.Discrete(2)
def fam_space(tr, r):
    tr.d.update(kind='space')
    while True:
        f = r.randint(2, 4); sp, nd = space(r, f)
        if size(nd, f) <= 300: break
    class Both(GymDiscreteActionDomain, DeterministicGymDomain):
        def __init__(self, env, **k): DeterministicGymDomain.__init__(self, env); GymDiscreteActionDomain.__init__(self, **k)
    b = r.choice([0, 0, 2, 5, 1000])
    random.seed(r.random()); np.random.seed(r.randrange(10 ** 6))
    dom = Both(Stub(sp), discretization_factor=f, branching_factor=b or None)
    def ask():
        A = list(dom.get_applicable_actions('any').get_elements())
        return A, [flat(sp, a) for a in A]
    A, q = ask(); _, q2 = ask()
    tr.ev('actions', S=nd, f=f, b=b, acts=q, legal=q == q2 and all(sp.contains(a) for a in A))

# ---------------------------------------------------------------- spaces of Python values
@dataclass
class Row:
    a: int
    b: object
def fam_codec(tr, r):
    import json
    tr.d.update(kind='space')
    n = r.randint(1, 6); names = ['v%d' % i for i in r.sample(range(20), n)]
    np.random.seed(r.randrange(10 ** 6))
    k = r.choice(['enum', 'list', 'data'])
    if k == 'data':
        m = r.randint(1, 4); sp = DataSpace(Row, dict(a=S.Discrete(n), b=S.MultiDiscrete([m, 2])))
        key = lambda x: [int(x.a), int(x.b[0]), int(x.b[1])]
        for _ in range(4):
            v = Row(r.randint(0, n), np.array([r.randint(0, m), r.randint(0, 1)]))
            tr.ev('row', v=key(v), n=[n, m, 2], has=bool(sp.contains(v)), unw=[[int(d['a']), int(d['b'][0]), int(d['b'][1])] for d in sp.to_unwrapped([v])],
                  back=[key(x) for x in sp.from_unwrapped(sp.to_unwrapped([v]))], json=[key(x) for x in sp.from_jsonable(json.loads(json.dumps(sp.to_jsonable([v]))))], drawn=key(sp.sample()))
        return
    if k == 'enum': sp = EnumSpace(Enum('E', names)); els = list(sp._enum_class); other = Enum('F', names)
    else: els = names + ([r.choice(names)] if r.random() < .2 else []); sp = ListSpace(els); other = None
    got = list(sp.get_elements())
    pos = lambda x: els.index(x) + 1 if x in els else 0
    q = [r.choice(els) for _ in range(r.randint(0, 4))]
    tr.ev('codec', n=len(els), els=[pos(x) for x in got], want=[pos(x) for x in els], q=[pos(x) for x in q], unw=[int(x) + 1 for x in sp.to_unwrapped(q)],
          back=[pos(x) for x in sp.from_unwrapped(sp.to_unwrapped(q))], json=[pos(x) for x in sp.from_jsonable(json.loads(json.dumps(sp.to_jsonable(q))))],
          has=all(sp.contains(x) for x in els), hasnot=sp.contains('zz') or (other is not None and sp.contains(list(other)[0])), drawn=[pos(sp.sample()) for _ in range(5)],
          size=int(sp.unwrapped().n))

# ---------------------------------------------------------------- features
def conts(nd):
    if nd['t'] == 'box': return [True] * len(nd['lo'])
    if nd['kids']: return [c for k in nd['kids'] for c in conts(k)]
    return [False] * (nd['n'][0] if nd['t'] == 'multibinary' else len(nd['n']))
def value(r, sp):
    if isinstance(sp, S.Discrete): return r.randrange(int(sp.n))
    if isinstance(sp, S.MultiDiscrete): return np.array([r.randrange(int(n)) for n in sp.nvec])
    if isinstance(sp, S.MultiBinary): return np.array([r.randrange(2) for _ in range(int(sp.n))], dtype=np.int8)
    if isinstance(sp, S.Box): return np.array([r.randint(-6, 6) for _ in range(int(np.prod(sp.shape)))], dtype=np.float32).reshape(sp.shape)
    if isinstance(sp, S.Tuple): return tuple(value(r, s) for s in sp.spaces)
    return OrderedDict((k, value(r, s)) for k, s in sp.spaces.items())
def fam_feat(tr, r):
    sp, nd = space(r, 2); fid = r.randint(1, 3)
    class Wide(GymWidthDomain, DeterministicGymDomain):
        def __init__(self, env, **k): DeterministicGymDomain.__init__(self, env); GymWidthDomain.__init__(self, **k)
    dom = Wide(Stub(S.Discrete(2), sp), continuous_feature_fidelity=fid)
    tr.d.update(kind='feat', cont=conts(nd), fid=fid)
    op = r.choice(['bee1', 'bee2', 'bitsof'])
    old = []
    for _ in range(r.randint(2, 10)):
        v = value(r, sp) if not old or r.random() < .8 else r.choice(old); old.append(v)
        x = GymDomainStateProxy(v) if r.random() < .5 else v
        if op == 'bitsof':
            w = r.choice(old)
            tr.ev('bitsof', x=flat(sp, v), y=flat(sp, w), gx=[int(b) for b in dom.binary_features(x)], gy=[int(b) for b in dom.binary_features(w)], n=int(dom.nb_of_binary_features()))
        else: tr.ev(op, v=flat(sp, v), got=[int(y) for y in (dom.bee1_features if op == 'bee1' else dom.bee2_features)(x)])
    if op == 'bitsof':
        t = r.choice(['multidiscrete', 'multibinary']); n = [r.randint(1, 9) for _ in range(3)] if t == 'multidiscrete' else [4]
        sp = S.MultiDiscrete(n) if t == 'multidiscrete' else S.MultiBinary(4); v = value(r, sp); dom = Wide(Stub(S.Discrete(2), sp))
        tr.ev('bits', S=node(t, n), v=flat(sp, v), got=[int(b) for b in dom.binary_features(v)], n=int(dom.nb_of_binary_features()))

d = Driver()
for k in range(1500 if d.thorough else 250):
    r = d.rng('gym', k)
    d.run('live', k, lambda tr: fam_live(tr, r))
    d.run('free', k, lambda tr: fam_free(tr, r))
    d.run('as', k, lambda tr: fam_as(tr, r))
    d.run('space', k, lambda tr: fam_space(tr, r))
    d.run('feat', k, lambda tr: fam_feat(tr, r))
    d.run('codec', k, lambda tr: fam_codec(tr, r))
