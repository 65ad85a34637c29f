"""rollout and rollout_episode on table domains; every call made on the domain and the solver is recorded."""
import json, logging, os, random, shutil, tempfile
from common import Driver
import drv_env as E
from skdecide import rollout, rollout_episode
from skdecide.builders.domain import Sequential, Parallel, Renderable
logging.getLogger('skdecide.utils').setLevel(logging.CRITICAL)

def recording(dom, tr, par):
    """The same domain, with every public call recorded."""
    base = type(dom)
    if par:
        base = type('ParDom', (base,), dict(T_concurrency=Parallel.T_concurrency,
            ain=lambda self, a: E.Tab.ain(self, a[0] if self.I['ag'] == 1 else {k: v[0] for k, v in a.items()})))
    depth = [0]
    def pre(self): return E.raw(self)[0]
    def wrap(name, rec):
        def f(self, *a, **k):
            depth[0] += 1
            p = pre(self)
            try:
                res = getattr(super(R, self), name)(*a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0: rec(self, p, a, res)
            return res
        return f
    ev = lambda self, op, p, **k: tr.ev(op, pre=p, post=pre(self), **k)
    over = dict(reset=wrap('reset', lambda s, p, a, o: ev(s, 'dreset', p, o=E.obsr(s, o))),
                step=wrap('step', lambda s, p, a, o: ev(s, 'step', p, a=s.ain(a[0]), **{k: v for k, v in E.outr(s, o).items() if k != 'info'})))
    if hasattr(base, 'set_memory'):
        over['set_memory'] = wrap('set_memory', lambda s, p, a, o: ev(s, 'setmem', p, m=s.mem(a[0])))
    for name in ('get_applicable_actions', 'is_goal', 'render', 'get_observation_distribution', 'sample', 'get_goals', 'is_applicable_action', 'is_terminal', 'get_action_space'):
        if hasattr(base, name):
            over[name] = wrap(name, lambda s, p, a, o, n=name: ev(s, 'free', p, call=n))
    R = type('Rec', (base,), over)
    dom.__class__ = R
    return dom

class Pol:
    def __init__(self, dom, tr, r, I, par): self.dom, self.tr, self.r, self.I, self.par = dom, tr, r, I, par
    def reset(self): self.tr.ev('sreset')
    def is_policy_defined_for(self, o): return True
    def sample_action(self, o):
        a = [self.r.randint(1, self.I['na']) for _ in range(self.I['ag'])]
        w = [x - 1 for x in a]
        if self.par: w = [[x] for x in w]
        self.tr.ev('choose', o=E.obsr(self.dom, o), a=a)
        return w[0] if self.I['ag'] == 1 else dict(zip(E.NAMES, w))

def play(tr, I, J, r, par, kind, opts):
    random.seed(r.random())
    dom = E.build(I)
    render = opts.pop('renderable')
    if render:
        dom.__class__ = type('Ren', (type(dom), Renderable), dict(_render_from=lambda s, m=None, **k: None, render=lambda s, memory=None, **k: None))
    dom = recording(dom, tr, par)
    pol = Pol(dom, tr, r, I, par) if J['policy'] else None
    kw = dict(opts, num_episodes=J['episodes'], max_steps=None if J['max'] == -1 else J['max'])
    if J['from']:
        kw['from_memory'] = E.mk(dom, J['m'])
        if J['fa']:
            w = [x - 1 for x in J['fa']]
            if par: w = [[x] for x in w]
            kw['from_action'] = w[0] if I['ag'] == 1 else dict(zip(E.NAMES, w))
    if kind == 'episode':
        obs, acts, vals = rollout_episode(dom, pol, **kw)
        vs = [[v] if I['ag'] == 1 else [v[n] for n in E.NAMES[:I['ag']]] for v in vals]
        tr.ev('return', obs=[E.obsr(dom, o) for o in obs], acts=[dom.ain(a) for a in acts], vals=[[int(x.reward) for x in v] for v in vs])
    elif kind == 'rollout':
        rollout(dom, pol, **kw)
        tr.ev('finish')
    else:
        d = tempfile.mkdtemp(prefix='ro_')
        try:
            os.rmdir(d)
            res = rollout(dom, pol, save_result_directory=d, **kw)
            dirs = []
            for x in sorted(os.listdir(d)):
                ld = lambda f: json.load(open(os.path.join(d, x, f + '.json')))
                o, a, t = ld('observations'), ld('actions'), ld('transitions')
                n = len(a)
                assert sorted(map(int, o)) == list(range(n + 1)) and sorted(map(int, a)) == sorted(map(int, t)) == list(range(1, n + 1))
                obs = [[o[str(i)] + 1] for i in range(n + 1)]
                ok = all(t[str(i)]['s'] + 1 == obs[i - 1][0] and t[str(i)]["s'"] + 1 == obs[i][0] and t[str(i)]['a'] == a[str(i)] for i in range(1, n + 1))
                dirs.append(dict(obs=obs if ok else [], acts=[[a[str(i)] + 1] for i in range(1, n + 1)], vals=[[0 - t[str(i)]['cost']] for i in range(1, n + 1)]))
            tr.ev('saved', dirs=dirs, returned=os.path.isdir(res) and os.path.dirname(res) == d)
        finally:
            shutil.rmtree(d, True)

def main():
    D = Driver()
    reps = 10 if D.thorough else 2
    for mem in ('memoryless', 'markov', 'h1', 'h2', 'h3', 'history'):
        for level in ('env', 'sim', 'unc', 'det'):
            for obs in ('full', 'trans', 'part'):
                for kind in ('rollout', 'episode', 'save'):
                    for j in range(reps):
                        r = D.rng('rollout', mem, level, obs, kind, j)
                        if kind == 'save' and obs != 'full': continue
                        ag = 1 if kind == 'save' or r.random() < .5 else r.randint(2, 3)
                        I = E.rand_inst(r, ag, mem, level, obs)
                        if I['events'] == 'free': I['app'] = [I['acts']] * I['keys']
                        for q in I['app']:
                            for x in range(ag):
                                q[x] = q[x] or [1]
                        mx = r.choice([0, 1, 2, 3, 5, 8])
                        if level != 'det' and r.random() < .3:
                            mx = -1
                            I['term'][0] = True
                            for k in I['trans']:
                                for d in k: d.append([1, 2])
                        par = kind != 'save' and r.random() < .3
                        frm = level != 'env' and mem != 'memoryless' and r.random() < .5
                        policy = r.random() < .7
                        n = 1 if I['mlen'] == 1 else r.randint(1, 4 if I['mlen'] == -1 else max(1, I['mlen']))
                        J = dict(max=mx, episodes=r.randint(1, 3), m=[r.randint(1, I['ns']) for _ in range(n)] if frm else [],
                                 fa=[r.randint(1, I['na']) for _ in range(ag)] if frm and r.random() < .5 else [], policy=policy)
                        J['from'] = frm
                        opts = dict(verbose=r.random() < .3, render=r.random() < .7, renderable=r.random() < .5)
                        if r.random() < .2: opts['max_framerate'] = 10000.
                        if r.random() < .4: opts.update(action_formatter=None, outcome_formatter=None)
                        D.run(kind, '%s-%s-%s-%d' % (mem, level, obs, j), lambda tr: play(tr, I, J, r, par, kind, opts), inst=I, job=J, secs=20)
main()
