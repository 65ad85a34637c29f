"""Domains built from tables, for every memory length, dynamics level, observability and number of agents;
every call on them is recorded with what it returned and what it left in memory."""
import random
from common import Driver
from skdecide import *
from skdecide import Domain
from skdecide.core import Memory
from skdecide.builders.domain import *

def enc_dist(pairs, f):
    w = sum(x[1] for x in pairs)
    return DiscreteDistribution([(f(x[0]), x[1] / w) for x in pairs])

def rand_inst(r, ag, mem, level, obs, noval=False):
    ns, na, keys = r.randint(2, 4), r.randint(1, 3) if ag == 1 else r.randint(1, 2), r.randint(1, 6)
    J = na ** ag
    det = level == 'det'
    def dist(n):
        if det: return [[r.randint(1, n), 1]]
        xs = r.sample(range(1, n + 1), r.randint(1, n))
        q = [[x, r.randint(0, 4)] for x in xs]
        if sum(x[1] for x in q) == 0: q[0][1] = 1
        if r.random() < 0.15: q.append([q[0][0], 2])       # a value declared twice
        return q
    no = ns if obs == 'full' else r.randint(1, 4)
    def od(x):
        if obs == 'full': return [[[x] * ag, 1]]
        q = [[[r.randint(1, no) for _ in range(ag)], 1] for _ in range(1 if obs == 'trans' else r.randint(1, 3))]
        return q
    def sub(n, lo=0): return sorted(r.sample(range(1, n + 1), r.randint(lo, n)))
    dep = r.random() < 0.7
    def val():
        rows = [[0 if noval else r.randint(-5, 5) for _ in range(ag)] for _ in range(ns)]
        return rows if dep else [rows[0]] * ns
    mlen, kind = dict(memoryless=(0, 'none'), markov=(1, 'state'), history=(-1, 'history')).get(mem) or (int(mem[1:]), 'history')
    acts = [sub(na, 1) for _ in range(ag)]
    detinit = r.random() < 0.5
    init = dist(ns) if level != 'det' else [[x, 1] for x in sub(ns, 1)]
    return dict(ag=ag, na=na, ns=ns, no=no, keys=keys, mlen=mlen, kind=kind, mem=mem, level=level, obsv=obs, noval=noval, dep=dep, vk=r.choice(['r', 'c']),
                trans=[[dist(ns) for _ in range(J)] for _ in range(keys)], val=[[val() for _ in range(J)] for _ in range(keys)],
                obs=[[od(x) for _ in range(J + 1)] for x in range(1, ns + 1)], init=init, detinit=detinit,
                term=[r.random() < 0.3 for _ in range(ns)], goals=[sub(no) for _ in range(ag)],
                app=[[sub(na) for _ in range(ag)] for _ in range(keys)] if mem != 'x' else None, acts=acts,
                enabled=[r.sample([11, 12, 13], r.randint(0, 2)) for _ in range(keys)], events=r.choice(['events', 'actions', 'free']),
                obss=[sub(no) for _ in range(ag)], pos=r.random() < 0.5)

NAMES = ['a1', 'a2', 'a3']
class L(EnumerableSpace, SamplableSpace):
    def __init__(self, x): self.x = list(x)
    def get_elements(self): return self.x
    def sample(self): return random.choice(self.x)

class Tab:
    """The author's part: tables over the key of the memory."""
    T_state = T_observation = T_event = int
    T_value = float; T_info = None; T_predicate = bool
    def __init__(self, I): self.I = I; self.calls = 0
    def sin(self, x): return (x['a1'] if isinstance(x, dict) else x) + 1        # states, observations and actions count from 0: a falsy one is a legal one
    def sout(self, x): return {n: x - 1 for n in NAMES[:self.I['ag']]} if self.I['ag'] > 1 and self.I['obsv'] == 'full' else x - 1
    def oout(self, o): return o[0] - 1 if self.I['ag'] == 1 else dict(zip(NAMES, [x - 1 for x in o]))
    def ain(self, a): return [a + 1] if self.I['ag'] == 1 else [a[n] + 1 for n in NAMES[:self.I['ag']]]
    def mem(self, m):
        if self.I['kind'] == 'none' or m is None: return []
        return [self.sin(m)] if self.I['kind'] == 'state' else [self.sin(x) for x in m]
    def key(self, m): return sum((i + 1) * x for i, x in enumerate(self.mem(m))) % self.I['keys']
    def joint(self, a): return sum((x - 1) * self.I['na'] ** i for i, x in enumerate(self.ain(a)))
    def tv(self, x): return TransitionValue(reward=x) if self.I['vk'] == 'r' else TransitionValue(cost=-x)
    def val(self, m, a, x):
        v = [self.tv(y) for y in self.I['val'][self.key(m)][self.joint(a)][self.sin(x) - 1 if x is not None else 0]]
        return v[0] if self.I['ag'] == 1 else dict(zip(NAMES, v))
    def dist(self, m, a): return enc_dist(self.I['trans'][self.key(m)][self.joint(a)], self.sout)
    def outcome(self, m, a):
        x = self.dist(m, a).sample()
        v = None if self.I['noval'] else self.val(m, a, x)
        return TransitionOutcome(state=x, value=v, termination=self.I['term'][self.sin(x) - 1], info=None)
    def per(self, q):
        q = [[y - 1 for y in x] for x in q]
        return L(q[0]) if self.I['ag'] == 1 else {n: L(x) for n, x in zip(NAMES, q)}
    def _get_action_space_(self): self.calls += 1; return self.per(self.I['acts'])
    def _get_goals_(self): return self.per(self.I['goals'])
    def _get_observation_space_(self): return self.per(self.I['obss'])
class Env:
    def _state_step(self, action): return self.outcome(self._memory, action)
class Sim:
    def _state_sample(self, memory, action): return self.outcome(memory, action)
class Unc:
    def _get_next_state_distribution(self, memory, action):
        d = self.dist(memory, action)
        return d if self.I['level'] == 'enum' else ImplicitDistribution(d.sample)
    def _get_transition_value(self, memory, action, next_state=None): return self.val(memory, action, next_state)
    def _is_terminal(self, state): return self.I['term'][self.sin(state) - 1]
    def _is_transition_value_dependent_on_next_state_(self): return self.I['dep']
class Det(Unc):
    def _get_next_state_distribution(self, memory, action): return DeterministicTransitions._get_next_state_distribution(self, memory, action)
    def _get_next_state(self, memory, action): return self.sout(self.I['trans'][self.key(memory)][self.joint(action)][0][0])
class PO:
    def _get_observation_distribution(self, state, action=None):
        return enc_dist(self.I['obs'][self.sin(state) - 1][0 if action is None else 1 + self.joint(action)], self.oout)
class TO:
    def _get_observation(self, state, action=None):
        return self.oout(self.I['obs'][self.sin(state) - 1][0 if action is None else 1 + self.joint(action)][0][0])
class InitRaw:
    def _state_reset(self): return enc_dist(self.I['init'], self.sout).sample()
class InitUnc:
    def _get_initial_state_distribution_(self): return enc_dist(self.I['init'], self.sout)
class InitDet:
    def _get_initial_state_(self): return enc_dist(self.I['init'], self.sout).sample()   # asked once, then fixed
class AppEv:
    def _get_applicable_actions_from(self, memory): return self.per(self.I['app'][self.key(memory)])
    def _get_enabled_events_from(self, memory): return L([x - 1 for x in self.I['enabled'][self.key(memory)]])
class AppAct:
    def _get_applicable_actions_from(self, memory): return self.per(self.I['app'][self.key(memory)])
class Free: pass
class H2(FiniteHistory):
    def _get_memory_maxlen_(self): return self.I['mlen']

CLASSES = {}
def build(I):
    ev = {'events': (AppEv, Events), 'actions': (AppAct, Actions), 'free': (Free, UnrestrictedActions)}[I['events']]
    dyn = dict(env=(Env, Environment), sim=(Sim, Simulation), unc=(Unc, UncertainTransitions), enum=(Unc, EnumerableTransitions),
               det=(Det, DeterministicTransitions))[I['level']]
    ob = dict(full=((), FullyObservable), trans=((TO,), TransformedObservable), part=((PO,), PartiallyObservable))[I['obsv']]
    ini = (InitDet, DeterministicInitialized) if I['detinit'] else (InitUnc, UncertainInitialized) if I['level'] != 'env' else (InitRaw, Initializable)
    mem = dict(memoryless=Memoryless, markov=Markovian, history=History).get(I['mem'], H2)
    bases = (Tab, ev[0], dyn[0]) + ob[0] + (ini[0], Domain, SingleAgent if I['ag'] == 1 else MultiAgent, Sequential, dyn[1], ev[1], Goals, ini[1], mem,
                                            ob[1], PositiveCosts if I['pos'] else Rewards)
    seen = []
    for b in bases:
        if b not in seen: seen.append(b)
    k = tuple(seen)
    if k not in CLASSES: CLASSES[k] = type('Dom', k, {})     # domains of one class, with tables of their own
    return CLASSES[k](I)

def raw(dom):
    if not hasattr(dom, '_memory'): return [], 'unset'
    m = dom._memory
    if m is None: return [], 'none'
    if isinstance(m, Memory): return [dom.sin(x) for x in m], 'history'
    return [dom.sin(m)], 'state'
def mk(dom, q):
    """A memory value of the domain's kind for states q."""
    I = dom.I
    if I['kind'] == 'none': return None
    if I['kind'] == 'state': return dom.sout(q[-1])
    return Memory([dom.sout(x) for x in q], maxlen=None if I['mlen'] == -1 else I['mlen'])
def rec(tr, dom, op, args=(), **kw):
    m, k = raw(dom)
    spoilt = any(now != before for now, before in args)
    tr.ev(op, mem=m, mkind=k, spoilt=spoilt, **kw)
def obsr(dom, o): return [o + 1] if dom.I['ag'] == 1 and not isinstance(o, dict) else [o[n] + 1 for n in sorted(o)]
def outr(dom, o):
    n = NAMES[:dom.I['ag']]
    v = [o.value] if dom.I['ag'] == 1 else [o.value[x] for x in n]
    inf = [o.info] if dom.I['ag'] == 1 else [o.info[x] for x in n]
    return dict(o=obsr(dom, o.observation), r=[int(x.reward) for x in v], c=[int(x.cost) for x in v], term=bool(o.termination),
                info=[0 if x is None else 1 for x in inf])
def distr(d, f): return [[f(x), int(round(p * 1e6))] for x, p in d.get_values()]

def ask(d):
    d.reset(); d.get_action_space(), d.get_goals(), d.get_observation_space()
    if d.I['mem'][0] == 'h' and d.I['mem'] != 'history': d._get_memory_maxlen()
    if d.I['detinit']: d.get_initial_state()

def walk(tr, I, r, steps):
    random.seed(r.random())
    B = rand_inst(r, I['ag'], I['mem'], I['level'], I['obsv'], I['noval'])
    B.update({k: I[k] for k in ('events', 'detinit', 'pos', 'ag')}, mlen=I['mlen'] % 3 + 1 if I['mem'][0] == 'h' and I['mlen'] > 0 else I['mlen'])
    if r.random() < 0.7: ask(build(B))                       # another domain of the class, used before this one
    dom = build(I)
    ag, na, ns = I['ag'], I['na'], I['ns']
    sim, unc, enum = I['level'] != 'env', I['level'] in ('unc', 'enum', 'det'), I['level'] in ('enum', 'det')
    live = False
    def act(): return [r.randint(1, na) for _ in range(ag)]
    def shuf(d):                                             # the agents, named in any order
        return dict(r.sample(list(d.items()), len(d))) if isinstance(d, dict) else d
    def aout(a): return a[0] - 1 if ag == 1 else shuf(dict(zip(NAMES, [x - 1 for x in a])))
    def mems():
        if I['kind'] == 'none': return []
        if I['kind'] == 'state': return [r.randint(1, ns)]
        n = I['mlen'] if I['mlen'] != -1 else 5
        return [r.randint(1, ns) for _ in range(r.randint(0 if n == 0 else 1, n))]
    def given():
        """An explicit memory, or none (the current one)."""
        q = mems()
        if live and r.random() < 0.6: return None, dict(given=False, m=q)
        if I['kind'] == 'none': return None, dict(given=False, m=q)
        return mk(dom, q), dict(given=True, m=q)
    ops = ['step'] * 8 + ['reset'] + ['applicable', 'offer', 'goal', 'isobs', 'isaction', 'enabled', 'same', 'check', 'observe', 'obsdist']
    if sim: ops += ['sample'] * 3 + ['setmem']
    if unc: ops += ['terminal', 'value', 'value']
    if enum: ops += ['dist', 'dist']
    if I['level'] == 'det': ops += ['next']
    if I['detinit']: ops += ['initial']
    if I['detinit'] or I['level'] != 'env': ops += ['initdist']
    for _ in range(steps):
        op = r.choice(ops) if live or r.random() < 0.2 else 'reset'
        if not live and op in ('step', 'applicable', 'offer', 'enabled') : op = 'reset'
        if op == 'reset':
            o = dom.reset(); live = True
            rec(tr, dom, 'reset', o=obsr(dom, o))
        elif op == 'step':
            a = act()
            rec(tr, dom, 'step', a=a, **outr(dom, dom.step(aout(a))))
        elif op == 'sample':
            a, q = act(), mems()
            m = mk(dom, q)
            o = dom.sample(m, aout(a))
            rec(tr, dom, 'sample', [(dom.mem(m), q)], a=a, m=q, **outr(dom, o))
        elif op == 'setmem':
            q = mems(); m = mk(dom, q)
            if I['kind'] == 'history' and r.random() < 0.5: m = Memory(m)      # a history without bound
            dom.set_memory(m); live = True
            rec(tr, dom, 'setmem', m=q)
            if I['kind'] == 'history':    # the caller's history stays the caller's
                a = act()
                out = outr(dom, dom.step(aout(a)))
                rec(tr, dom, 'step', [(dom.mem(m), q)], a=a, **out)
        elif op == 'applicable':
            m, g = given(); a = act()
            rec(tr, dom, op, a=a, yes=bool(dom.is_applicable_action(aout(a), m)), **g)
        elif op == 'offer':
            m, g = given(); sp = dom.get_applicable_actions(m)
            rec(tr, dom, op, els=[sorted(x + 1 for x in y.get_elements()) for y in ([sp] if ag == 1 else [sp[n] for n in NAMES[:ag]])], **g)
        elif op == 'enabled':
            m, g = given(); e = r.choice([11, 12, 13, 1])
            rec(tr, dom, op, e=e, yes=bool(dom.is_enabled_event(e - 1, m)), **g)
        elif op == 'isaction':
            e = r.randint(1, na + 1)
            rec(tr, dom, op, e=e, yes=bool(dom.is_action(e - 1)))
        elif op in ('goal', 'isobs'):
            o = [r.randint(1, I['no']) for _ in range(ag)]
            rec(tr, dom, op, o=o, yes=bool((dom.is_goal if op == 'goal' else dom.is_observation)(shuf(dom.oout(o)))))
        elif op == 'same':
            k = r.choice(['get_action_space', 'get_goals', 'get_observation_space'] + (['get_initial_state'] if I['detinit'] else []))
            x = getattr(dom, k)()
            if k != 'get_initial_state':
                rec(tr, dom, op, yes=x is getattr(dom, k)())
            else:
                rec(tr, dom, 'initial', x=dom.sin(x))
        elif op == 'check':
            c = r.randint(-2, 2)
            rec(tr, dom, op, cost=c, yes=bool(dom.check_value(r.choice([TransitionValue(cost=c), TransitionValue(reward=-c)]))))
        elif op in ('observe', 'obsdist'):
            x = r.randint(1, ns); a = act() if r.random() < 0.6 else []
            args = (dom.sout(x), aout(a)) if a else (dom.sout(x),)
            d = dom.get_observation_distribution(*args)
            if op == 'obsdist':
                rec(tr, dom, op, x=x, a=a, d=distr(d, lambda o: obsr(dom, o)))
            else:
                o = dom.get_observation(*args) if I['obsv'] != 'part' else d.sample()
                rec(tr, dom, op, x=x, a=a, o=obsr(dom, o))
        elif op == 'terminal':
            x = r.randint(1, ns)
            rec(tr, dom, op, x=x, yes=bool(dom.is_terminal(dom.sout(x))))
        elif op == 'value':
            q, a, x = mems(), act(), r.randint(1, ns)
            dep = dom.is_transition_value_dependent_on_next_state()
            v = dom.get_transition_value(mk(dom, q), aout(a), dom.sout(x)) if dep or r.random() < 0.5 else dom.get_transition_value(mk(dom, q), aout(a))
            v = [v] if ag == 1 else [v[n] for n in NAMES[:ag]]
            rec(tr, dom, op, m=q, a=a, x=x, r=[int(y.reward) for y in v], c=[int(y.cost) for y in v])
        elif op == 'dist':
            q, a = mems(), act(); m = mk(dom, q)
            d = dom.get_next_state_distribution(m, aout(a))
            rec(tr, dom, op, [(dom.mem(m), q)], m=q, a=a, d=distr(d, dom.sin))
        elif op == 'next':
            q, a = mems(), act(); m = mk(dom, q)
            rec(tr, dom, 'dist', [(dom.mem(m), q)], m=q, a=a, d=[[dom.sin(dom.get_next_state(m, aout(a))), 1000000]])
        elif op == 'initial':
            rec(tr, dom, op, x=dom.sin(dom.get_initial_state()))
        elif op == 'initdist':
            d = dom.get_initial_state_distribution()
            rec(tr, dom, op, det=I['detinit'], d=distr(d, dom.sin))
            if I['detinit']: rec(tr, dom, 'initial', x=dom.sin(dom.get_initial_state()))

def main():
    D = Driver()
    reps = 12 if D.thorough else 2
    for mem in ('memoryless', 'markov', 'h1', 'h2', 'h3', 'history'):
        for level in ('env', 'sim', 'unc', 'enum', 'det'):
            for obs in ('full', 'trans', 'part'):
                for j in range(reps):
                    r = D.rng('env', mem, level, obs, j)
                    ag = 1 if j % 2 == 0 else r.randint(2, 3) 
                    I = rand_inst(r, ag, mem, level, obs, noval=level in ("env", "sim") and (ag == 1 or obs == "full") and r.random() < 0.3)
                    if I['events'] == 'free': I['app'] = [I['acts']] * I['keys']
                    if I['events'] != 'events': I['enabled'] = [[] for _ in range(I['keys'])]
                    D.run('env', '%s-%s-%s-%d' % (mem, level, obs, j), lambda tr: walk(tr, I, r, 60 if D.thorough else 40), inst=I)

if __name__ == '__main__':
    main()
