"""Projects of a few tasks: the data of the specification and the model of the library."""
import contextlib, io, math, random
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModel, RCPSPModelCalendar, SingleModeRCPSPModel, MultiModeRCPSPModel

def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
BAD = -777777

class Inst:
    """One project: the data of the spec and the model of the library."""
    def __init__(self, r, kind, n=None, H=None, like=None, dmax=None, roomy=False):
        self.kind = kind
        self.n = n = r.randint(1, 6) if n is None else n
        N = self.N = n + 2
        R = r.randint(1, 3)
        self.names = ['R%d' % (k + 1) for k in range(R)]
        gap = [r.randint(0, 1) for _ in range(8)]
        multi = kind == 'multi' or (kind == 'calendar' and r.random() < .3)
        self.nr = []
        if kind != 'calendar' and r.random() < .4: self.nr = [R - 1]
        elif kind == 'calendar' and r.random() < .2: self.nr = [R - 1]
        dmax = r.choice([2, 4, 6]) if dmax is None else dmax
        cap = [r.randint(1, 4) for _ in range(R)]
        zero = r.random() < .25
        if like is not None:
            self.names, self.nr, R = like.names, like.nr, len(like.names)
            cap = [like.capmax[k] for k in range(R)]
        ids = []
        self.md = {1: {1: dict(duration=0, **{x: 0 for x in self.names})}}
        for i in range(2, N):
            if like is not None: mi = list(like.md[i])
            else:
                mi = [1]
                if multi:
                    k = r.randint(1, 3); mi = list(range(1, k + 1)) if r.random() < .8 else [1] + sorted(r.sample(range(2, 6), k - 1))
                if r.random() < .2: r.shuffle(mi)
            self.md[i] = {}
            for m in mi:
                d = r.randint(0 if zero else 1, dmax)
                nd = {x: r.randint(0, min(3, cap[k] + (r.random() < .04 and not roomy))) if r.random() < .8 else 0 for k, x in enumerate(self.names)}
                self.md[i][m] = dict(duration=d, **nd)
        self.md[N] = {1: dict(duration=0, **{x: 0 for x in self.names})}
        p = r.choice([.1, .3, .6])
        topo = list(range(2, N))
        if r.random() < .5: r.shuffle(topo)
        self.succ = {1: list(range(2, N + 1)) if r.random() < .5 else [2 + i for i in range(n)] + [N]}
        for a, i in enumerate(topo):
            self.succ[i] = [j for j in topo[a + 1:] if r.random() < p] + [N]
        self.succ[N] = []
        if r.random() < .3: # listed in another order
            ks = list(self.succ); r.shuffle(ks); self.succ = {k: self.succ[k] for k in ks}
        work = sum(max(m['duration'] for m in self.md[k].values()) for k in self.md)
        tight = r.random() < .3 and not (zero and self.nr) and not roomy
        self.mult = r.choice([1, 1, 2])
        H = max(1, int(work * r.uniform(.5, 1.1))) if tight else work + 6
        if kind == 'calendar' and not tight: H = 2 * work + 8
        self.h = max(1, H // self.mult)
        self.H = self.h * self.mult
        self.capmax = cap
        for k in self.nr:
            tot = sum(max(m[self.names[k]] for m in self.md[t].values()) for t in self.md)
            cap[k] = max(1, tot - r.randint(0, 3))
        if kind == 'calendar':
            self.cap, L = [], self.H + r.choice([0, 1, 1, 3])
            for k in range(R):
                if k in self.nr: self.cap.append([cap[k]] * L)
                else:
                    row, cur = [], cap[k]
                    while len(row) < L:
                        cur = r.choice([cap[k], cap[k], r.randint(0, cap[k])])
                        row += [cur] * r.randint(1, 4)
                    self.cap.append(row[:L])
        else: self.cap = [[c] for c in cap]
        self.model = self.build()
    def build(self):
        res = {x: (list(self.cap[k]) if self.kind == 'calendar' else self.cap[k][0]) for k, x in enumerate(self.names)}
        a = (res, [self.names[k] for k in self.nr], {t: {m: dict(v) for m, v in q.items()} for t, q in self.md.items()},
             {k: list(v) for k, v in self.succ.items()}, self.h, self.mult)
        return {'calendar': RCPSPModelCalendar, 'single': SingleModeRCPSPModel, 'multi': MultiModeRCPSPModel, 'plain': RCPSPModel}[self.kind](*a)
    def spec(self):
        return dict(N=self.N, H=self.H, cst=self.kind != 'calendar', nr=[k + 1 for k in self.nr], cap=self.cap,
                    modes=self.mlist(self.md), succ=[self.succ[k] for k in range(1, self.N + 1)])
    def mlist(self, md):
        return [[dict(id=m, dur=int(md[t][m]['duration']), need=[int(md[t][m][x]) for x in self.names]) for m in sorted(md[t])] for t in range(1, self.N + 1)]
    def perm(self, r):
        p = list(range(self.n)); r.shuffle(p); return p
    def modes(self, r, wild=False):
        return [r.choice(list(self.md[i + 2])) if not (wild and r.random() < .3) else r.randint(2, 9) for i in range(self.n)]
    def scaled(self, v, mk):
        if not (0 < mk < 10 ** 6) or self.kind == 'calendar': return 0
        x = float(v) * len(self.names) * mk * math.prod(c[0] for c in self.cap)
        return int(round(x)) if math.isfinite(x) and abs(x - round(x)) < 1e-4 else BAD
