"""The bundled games and grids: every rule asked in every state (small sizes) and random plays."""
import contextlib, io, itertools
from common import Driver
import numpy as np, matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from skdecide.hub.domain.mastermind import mastermind as MM
from skdecide.hub.domain.rock_paper_scissors import rock_paper_scissors as RP
from skdecide.hub.domain.maze import maze as MZ
from skdecide.hub.domain.simple_grid_world import simple_grid_world as GW

PL = ['player1', 'player2']
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def ints(q): return [int(x) for x in q]

class Play:
    """One of the domains, with its states, actions and observations as sequences of integers."""
    def __init__(self, kind, G, dom, ns):
        self.kind, self.G, self.dom, self.ns = kind, dict(kind=kind, size=[], rows=[], start=[], goal=[], **{}) | G, dom, ns
    def st(self, x):
        if self.kind == 'mm': return ints(x.solution) + ints(x.score)
        if self.kind == 'rps': return [int(x.num_move)]
        return [int(x.x), int(x.y)]
    def un(self, q):
        if self.kind == 'mm': n = self.G['size'][1]; return MM.State(tuple(q[:n]), MM.Score(*q[n:]))
        return RP.State(q[0]) if self.kind == 'rps' else self.ns.State(*q)
    def act(self, q):
        if self.kind == 'mm': return tuple(q)
        return {p: RP.Move(m) for p, m in zip(PL, q)} if self.kind == 'rps' else self.ns.Action(q[0])
    def unact(self, a): return ints(a) if self.kind == 'mm' else [a.value]
    def obs(self, o):
        if self.kind == 'mm': return ints(o)
        return [o[p].value for p in PL] if self.kind == 'rps' else [int(o.x), int(o.y)]
    def vals(self, v): return [v[p] for p in PL] if self.kind == 'rps' else [v]
    def acts(self):
        A = self.dom.get_action_space()
        if self.kind == 'rps': return [[x.value, y.value] for x in A['player1'].get_elements() for y in A['player2'].get_elements()]
        return [self.unact(a) for a in A.get_elements()]
    def inspace(self, o):
        S = self.dom.get_observation_space()
        return all(S[p].contains(o[p]) for p in PL) if self.kind == 'rps' else bool(S.contains(o))
    def state(self): return self.st(self.dom._memory)

def instance(r, big):
    k = r.choice(['mm', 'mm', 'rps', 'grid', 'maze', 'maze'])
    if k == 'mm':
        c, n = r.choice([(1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (5, 2)] + ([(3, 4), (6, 2), (4, 3)] if big else []))
        return Play(k, dict(size=[c, n]), MM.MasterMind(c, n), MM)
    if k == 'rps': m = r.randint(1, 6); return Play(k, dict(size=[m]), RP.RockPaperScissors(m), RP)
    if k == 'grid': w, h = r.randint(1, 6), r.randint(1, 6); return Play(k, dict(size=[w, h]), GW.SimpleGridWorld(w, h), GW)
    w, h = r.randint(3, 8), r.randint(3, 7)
    while True:
        wall = r.choice('+-|#')
        t = [[' ' if 0 < x < w - 1 and 0 < y < h - 1 and r.random() < .6 else r.choice(wall + '+') for x in range(w)] for y in range(h)]
        border = r.random() < .5
        cells = [(x, y) for x in range(w) for y in range(h) if (t[y][x] == ' ' or (border and (x in (0, w - 1)) != (y in (0, h - 1))))]
        if len(cells) >= 2: break
    a, b = r.sample(cells, 2)
    if r.random() < .25:                       # openings facing each other
        y = r.randrange(1, h - 1); x = r.randrange(1, w - 1)
        a, b = r.choice([((0, y), (w - 1, y)), ((w - 1, y), (0, y)), ((x, 0), (x, h - 1)), ((x, h - 1), (x, 0))])
    t[a[1]][a[0]], t[b[1]][b[0]] = 'o', 'x'
    s = '\n'.join(''.join(q) for q in t)
    s = r.choice(['', '\n']) + s + r.choice(['', '\n', ' \n'])
    rows = [[int(c in ' ox') for c in q] for q in t]
    return Play(k, dict(size=[w, h], rows=rows, start=list(a), goal=list(b)), MZ.Maze(s), MZ)

def default():
    lines = MZ.DEFAULT_MAZE.strip().split('\n')
    at = {c: [q.index(c) if c in q else -1 for q in lines] for c in 'ox'}
    pos = {c: next([x, y] for y, x in enumerate(v) if x >= 0) for c, v in at.items()}
    return Play('maze', dict(size=[len(lines[0]), len(lines)], rows=[[int(c in ' ox') for c in q] for q in lines], start=pos['o'], goal=pos['x']), MZ.Maze(), MZ)

def declare(tr, p):
    tr.d['G'] = p.G
    d, A = p.dom, p.acts()
    if p.kind == 'rps': st, w, same = [[0]], [1000], True
    elif p.kind == 'mm':
        v = d.get_initial_state_distribution().get_values(); st = [p.st(x) for x, _ in v]; w = [int(round(1000 * q * len(v))) for _, q in v]
        same = [p.unact(a) for a in d.get_applicable_actions(p.un(st[0])).get_elements()] == A
    else:
        st, w = [p.st(d.get_initial_state())], [1000]
        same = [p.unact(a) for a in d.get_applicable_actions(p.un(st[0])).get_elements()] == A
    tr.ev('starts', st=st, w=w, acts=A, same=same)
    return A

def ask(tr, p, q, a):
    d, x, act = p.dom, p.un(q), p.act(a)
    n = d.get_next_state(x, act); v = d.get_transition_value(x, act, n); o = d.get_observation(n, act)
    law = d.get_next_state_distribution(x, act).get_values()
    assert len(law) == 1 and law[0][0] == n and law[0][1] == 1
    tr.ev('ask', st=q, a=a, next=p.st(n), value=[int(v.reward)], cost=[int(v.cost)], over=bool(d.is_terminal(x)), overnext=bool(d.is_terminal(n)),
          obs=p.obs(o), goal=bool(d.is_goal(o)), inspace=p.inspace(o))

def fam_rules(tr, p, r, cap):
    A = declare(tr, p)
    if p.kind == 'rps': return
    if p.kind == 'mm':
        n = p.G['size'][1]
        S = [q + sc for q in p.acts() for sc in ([0, 0], [n, 0], [r.randint(0, n), 0])]
    else: S = [[x, y] for y in range(p.G['size'][1]) for x in range(p.G['size'][0]) if p.kind == 'grid' or p.G['rows'][y][x]]
    pairs = [(q, a) for q in S for a in A]
    if len(pairs) > cap: pairs = r.sample(pairs, cap)
    for q, a in pairs: ask(tr, p, q, a)

def fam_play(tr, p, r, n):
    tr.d['G'] = p.G
    d = p.dom; np.random.seed(r.randrange(10 ** 6))
    import random; random.seed(r.random())
    A = p.acts()
    for _ in range(r.randint(1, 3)):
        o = d.reset()
        tr.ev('reset', st=p.state(), obs=p.obs(o), inspace=p.inspace(o))
        for _ in range(n):
            if r.random() < .05: break
            a = r.choice(A)
            if p.kind == 'mm' and r.random() < .1: a = p.state()[:p.G['size'][1]]
            op = 'sample' if p.kind != 'rps' and r.random() < .2 else 'step'
            out = d.step(p.act(a)) if op == 'step' else d.sample(d._memory, p.act(a))
            v = p.vals(out.value)
            tr.ev(op, a=a, st=p.state(), obs=p.obs(out.observation), value=[int(x.reward) for x in v], over=bool(out.termination), inspace=p.inspace(out.observation),
                  goal=False if p.kind == 'rps' else bool(d.is_goal(out.observation)))
            if out.termination and op == 'step': break
        if p.kind == 'maze' and r.random() < .15:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                d.render()
            tr.ev('draw', pic=[[int(round(10 * float(x))) for x in q] for q in d._image.get_array()], st=p.state())
    plt.close('all')

d = Driver()
for k in range(600 if d.thorough else 120):
    r = d.rng('games', k); p = instance(r, d.thorough)
    d.run('rules', k, lambda tr: fam_rules(tr, p, r, 400 if d.thorough else 160))
    d.run('play', k, lambda tr: fam_play(tr, p, r, 30))
d.run('rules', 'default', lambda tr: fam_rules(tr, default(), d.rng('games', 'd'), 10 ** 6))
d.run('play', 'default', lambda tr: fam_play(tr, default(), d.rng('games', 'd'), 200))
