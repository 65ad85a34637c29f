"""Pools of parallel domains (pipes and shared memory): jobs of every kind, in every order of launch, completion and read."""
import json, logging, os, random, signal, sys, tempfile, threading, time
from common import Driver
import skdecide.domains as SD
from skdecide.domains import PipeParallelDomain, ShmParallelDomain
from skdecide.builders.solver import ParallelSolver
from pathos.helpers import mp
import pynng
SD.logger.setLevel(logging.CRITICAL + 1)
tempfile.tempdir = os.getcwd()

class Vec(list): pass
class Boom(Exception): pass
# every delegating method of a parallel domain, with its number of arguments
METHODS = dict(reset=0, get_initial_state_distribution=0, get_initial_state=0, get_observation_space=0, is_observation=1, get_observation_distribution=2,
    get_observation=2, get_enabled_events=1, is_enabled_event=2, get_action_space=0, is_action=1, get_applicable_actions=1, is_applicable_action=2, step=1,
    sample=2, get_next_state_distribution=2, get_next_state=2, get_transition_value=3, is_transition_value_dependent_on_next_state=0, get_goals=0,
    is_goal=1, is_terminal=1, check_value=1, render=1, work=2, anything_else=3, brief=3, nothing=2)
NAMES = sorted(METHODS)
def norm(x):
    return [norm(y) for y in x] if isinstance(x, (list, tuple)) else {k: norm(v) for k, v in sorted(x.items())} if isinstance(x, dict) else x
def pay(f, args): return repr([f if isinstance(f, str) else 'lambda%d' % f, norm(args)]).encode('ascii', 'replace').decode()

class Dom:
    """Echoes its calls; args[0] may ask to wait or to fail."""
    def __init__(self, log, shm): self.log, self.shm = log, shm
    def do(self, f, *args):
        fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        os.write(fd, (pay(f, args) + '\n').encode()); os.close(fd)
        k = args[0] if args and type(args[0]) is int else 0
        if k % 7 == 3: time.sleep(0.002 * (k % 5))
        if k < 0: raise Boom('job %d' % k)
        if f == 'nothing': return None
        i = NAMES.index(f) if isinstance(f, str) else 100 + f
        if f == 'brief': args = ()
        if self.shm: return (i, os.getpid()) + args
        return [i, os.getpid(), args]
for m in METHODS:
    setattr(Dom, m, (lambda m: lambda self, *a: self.do(m, *a))(m))
LAMBDAS = [lambda d, *a: d.do(0, *a), lambda d, *a: d.do(1, *a)]
def unecho(val, shm):
    """(payload, pid) from what was read."""
    if val is None: return 'None', 0
    try:
        i, p, args = (val[0], val[1], val[2:]) if shm else (val[0], val[1], val[2])
        return pay(NAMES[i] if i < 100 else i - 100, args), p
    except Exception as e:
        return 'unreadable ' + repr(val)[:60], 0

class Proxy:
    R = [(int, 8), (Vec, 3), (bool, 2)]
    def copy(self): return Proxy()
    def register(self): return self.R
    def initialize(self, t): return [mp.Value('i', 0) for _ in range(4)] if t is Vec else mp.Value('i' if t is int else 'b', 0)
    def encode(self, v, shm):
        if type(v) is Vec:
            for k, x in enumerate(v): shm[k].value = x
        else: shm.value = v
    def decode(self, t, shm): return Vec(x.value for x in shm) if t is Vec else t(shm.value)

class Slow:
    """The table of busy workers, slower: whatever interleaving is possible happens."""
    def __init__(self, a): self.a = a
    def __iter__(self):
        for k in range(len(self.a)):
            v = self.a[k]; time.sleep(0.004); yield v
    def __len__(self): return len(self.a)
    def __getitem__(self, k):
        v = self.a[k]; time.sleep(0.004); return v
    def __setitem__(self, k, v): self.a[k] = v
    def __getattr__(self, n): return getattr(self.a, n)

def arg(r, shm, first, uid):
    if first: return r.choice([uid * 7 + 1, uid * 7 + 2, uid * 7 + 3, -uid])
    if shm: return r.choice([lambda: r.randint(-9, 9), lambda: Vec(r.randint(0, 9) for _ in range(4)), lambda: r.random() < .5])()
    return r.choice([lambda: r.randint(-9, 9), lambda: [r.randint(0, 9), {'k': (1, r.randint(0, 5))}], lambda: 'txt%d' % r.randint(0, 9), lambda: None, lambda: 2.5])()

def make(shm, n, ipc, log):
    fac = lambda: Dom(log, shm)
    return ShmParallelDomain(fac, Proxy(), lambdas=LAMBDAS, nb_domains=n, ipc_notify=ipc) if shm else PipeParallelDomain(fac, lambdas=LAMBDAS, nb_domains=n, ipc_notify=ipc)

def job(r, shm, uid):
    if r.random() < .25:
        f, k = r.randint(0, 1), r.randint(1, 3)
    else:
        f = r.choice(NAMES); k = METHODS[f]
    args = tuple(arg(r, shm, j == 0, uid) for j in range(k))
    if shm and sum(type(a) is bool for a in args) > 2: args = args[:1]
    return f, args, bool(args) and args[0] < 0

def ret(f, args): return 'None' if f == 'nothing' else pay(f, () if f == 'brief' else args)     # what comes back

def alive(): return sum(p.is_alive() for p in mp.active_children() if p.name.startswith('Process'))

def launch(pd, f, args, want):
    i = None if want < 0 else want
    if isinstance(f, str): w = getattr(pd, f)(*args, i=i)
    else: w = pd.call(i, f, *args)
    return -1 if w is None else w

def sequential(tr, r, shm, n, ipc, steps, log):
    pd = make(shm, n, ipc, log)
    try:
        return _sequential(tr, r, shm, n, ipc, steps, log, pd)
    except BaseException:
        raise
    finally:
        for p in list(mp.active_children()):
            if p.name.startswith('Process'): p.kill()

def _sequential(tr, r, shm, n, ipc, steps, log, pd):
    holding, uid, nj = {}, 0, 0
    socks = []
    tr.d['n'] = n
    def opened():
        for s in socks: s.close()
        socks[:] = []
        pd._launch_processes()
        if ipc: socks.extend(pynng.Pull0(listen=c, recv_timeout=15000) for c in pd.get_ipc_connections())
    if ipc or r.random() < .3: opened()           # else the first launch starts the workers
    tr.ev('capacity', n=pd.get_parallel_capacity() if r.random() < .5 else pd.nb_domains())
    def read(w):
        j = holding.pop(w)
        if ipc:
            tr.ev('note', j=j, ok=socks[w].recv() == b'0')
        tr.ev('reading', j=j)
        v, p = unecho(pd.get_result(w), shm)
        tr.ev('result', j=j, val=v, pid=p)
    for _ in range(steps):
        x = r.random()
        free = [w for w in range(n) if w not in holding]
        if x < .5 and free:
            uid += 1
            f, args, fails = job(r, shm, uid)
            want = r.choice(free) if r.random() < .3 else -1
            w = launch(pd, f, args, want)
            tr.ev('launch', w=w, want=want, bad=False, pay=pay(f, args), ret=ret(f, args), fails=fails)
            nj += 1
            if w >= 0: holding[w] = nj
        elif x < .58 and free:                      # a job that cannot be shipped
            if shm: f, args = r.choice([('work', ('unknown type',)), ('work', (True, True, True)), ('x' * 200, ())])
            else: f, args = 'work', ((y for y in ()),)
            w = launch(pd, f, args, -1)
            tr.ev('launch', w=w, want=-1, bad=True, pay='bad', ret='bad', fails=False)
        elif x < .97 and holding:
            read(r.choice(sorted(holding)))
        elif x >= .97 and not ipc and any(pd._processes if hasattr(pd, '_processes') else [1]):
            pd.close()
            holding.clear()
            tr.ev('closed', alive=alive())
            uid += 1
            tr.d['reopened'] = True
    left = r.random() < .3
    if not left:
        for w in sorted(holding): read(w)
    if any(getattr(pd, '_processes', [1])):
        pd.close()
        tr.ev('closed', alive=alive())
    if not left and not tr.d.get('reopened'):
        tr.ev('runs', q=open(log).read().split('\n')[:-1] if os.path.exists(log) else [])
    for s in socks: s.close()

def threaded(tr, r, shm, n, k, each, log, slow=True):
    """k callers share the pool; each launches a job on any worker and reads its own result."""
    pd = make(shm, n, False, log)
    tr.d['n'] = n
    lock, start, errs, count = threading.Lock(), threading.Barrier(k), [], [0]
    seeds = [r.random() for _ in range(k)]
    try:
        pd._launch_processes()
        if slow and hasattr(pd, '_active_domains'): pd._active_domains = Slow(pd._active_domains)
        def caller(t):
            q = random.Random(seeds[t])
            def trace(frame, event, arg):           # a preemption may fall between any two lines of the pool
                if not frame.f_code.co_filename.endswith('skdecide/domains.py'): return None
                left = [q.randint(1, 6)]            # one long preemption per call
                def line(frame, event, arg):
                    left[0] -= 1
                    if left[0] == 0: time.sleep(0.015)
                    return line
                return line
            try:
                start.wait()
                sys.settrace(trace)
                for x in range(each):
                    f, args, fails = job(q, shm, 1 + t * 100 + x)
                    w = launch(pd, f, args, -1)
                    with lock:
                        count[0] += 1; j = count[0]
                        tr.ev('launch', w=w, want=-1, bad=False, pay=pay(f, args), ret=ret(f, args), fails=fails)
                    if q.random() < .3: time.sleep(0.003)
                    with lock: tr.ev('reading', j=j)
                    v, p = unecho(pd.get_result(w), shm)
                    with lock: tr.ev('result', j=j, val=v, pid=p)
            except Exception as e:
                errs.append(e)
        ts = [threading.Thread(target=caller, args=(t,), daemon=True) for t in range(k)]
        for t in ts: t.start()
        end = time.time() + 25
        for t in ts: t.join(max(0.1, end - time.time()))
        if any(t.is_alive() for t in ts): raise RuntimeError('a caller never got its result')
        if errs: raise errs[0]
        pd.close()
        tr.ev('closed', alive=alive())
        tr.ev('runs', q=open(log).read().split('\n')[:-1])
    finally:
        for p in list(mp.active_children()):
            if p.name.startswith('Process'): p.kill()

def solver(tr, r, shm, parallel, log):
    tr.d['n'] = 0
    class S(ParallelSolver): pass
    s = S(lambda: Dom(log, shm), parallel=parallel, shared_memory_proxy=Proxy() if shm else None)
    cpu = os.cpu_count
    try:
        if r.random() < .5: s._initialize()
        dom = s.get_domain()
        tr.ev('direct', pay='same', val='same' if dom is s.get_domain() else 'other')
        for u in range(8):
            f, args, fails = job(r, shm, u + 1)
            if fails or not isinstance(f, str): continue
            v, p = unecho(s.call_domain_method(f, *args), shm)
            tr.ev('direct', pay=ret(f, args), val=v)
            if v != 'None': tr.ev('direct', pay='worker' if parallel else 'here', val='here' if p == os.getpid() else 'worker')
        s.close()
        tr.ev('closed', alive=alive())
    finally:
        for p in list(mp.active_children()):
            if p.name.startswith('Process'): p.kill()

class Jobs:
    """Every trace in a process of its own (nng does not survive a fork), a few at a time."""
    def __init__(self, D): self.D, self.todo, self.live, self.done = D, [], {}, {}
    def add(self, fam, key, fn, secs): self.todo.append((fam, key, fn, secs))
    def start(self, k):
        fam, key, fn, secs = self.todo[k]
        out = os.path.abspath('trace%d' % k)
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                self.D.f = open(out, 'w')
                self.D.run(fam, key, fn, secs=secs)
            finally:
                os._exit(0)
        self.live[pid] = (k, out, time.time() + secs + 10)
    def finish(self, pid):
        k, out, _ = self.live.pop(pid)
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
        txt = open(out).read() if os.path.exists(out) else ''
        if not txt.endswith('\n'):
            fam, key = self.todo[k][:2]
            txt = json.dumps(dict(key=fam + '/' + key, fam=fam, n=0, inst={}, events=[dict(op='exc', call='escaped', err='the caller hangs or died')])) + '\n'
        self.done[k] = txt
    def run(self, width=6):
        k = 0
        while k < len(self.todo) or self.live:
            while k < len(self.todo) and len(self.live) < width:
                self.start(k); k += 1
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid in self.live: self.finish(pid)
            for p, (_, _, end) in list(self.live.items()):
                if time.time() > end:
                    try: os.killpg(p, signal.SIGKILL)
                    except OSError: pass
            if pid == 0: time.sleep(0.005)
        for k in sorted(self.done): self.D.f.write(self.done[k])
        self.D.f.flush()

def main():
    D = Driver()
    Q = Jobs(D)
    c = [0]
    def log():
        c[0] += 1
        return os.path.join(os.getcwd(), 'log%d' % c[0])
    def add_seq(shm, ipc, j):
        r = D.rng('pool', shm, ipc, j); n = r.randint(1, 4); lg = log()
        Q.add('seq', '%s-%s-%d' % ('shm' if shm else 'pipe', 'ipc' if ipc else 'plain', j), lambda tr: sequential(tr, r, shm, n, ipc, 60, lg), 25)
    def add_thr(shm, j):
        r = D.rng('thr', shm, j); n = r.randint(1, 3); k = n + r.randint(0, 2); lg = log()
        Q.add('threads', '%s-%d' % ('shm' if shm else 'pipe', j), lambda tr: threaded(tr, r, shm, n, k, 6, lg), 30)
    def add_solver(shm, par):
        r = D.rng('solver', shm, par); lg = log()
        Q.add('solver', '%s-%s' % ('shm' if shm else 'pipe', par), lambda tr: solver(tr, r, shm, par, lg), 25)
    for shm in (False, True):
        for ipc in (False, True):
            for j in range(60 if D.thorough else 10): add_seq(shm, ipc, j)
        for j in range(30 if D.thorough else 5): add_thr(shm, j)
        add_solver(shm, True)
    add_solver(False, False)
    Q.run()
main()
os._exit(0)
