from plant import plant
F='skdecide/domains.py'
H='''
import os, sys, threading, time, logging, signal
signal.alarm(60)
import skdecide.domains as SD
from skdecide.domains import PipeParallelDomain, ShmParallelDomain
from pathos.helpers import mp
SD.logger.setLevel(100)
class Vec(list): pass
class Proxy:
    def copy(self): return Proxy()
    def register(self): return [(int, 6), (Vec, 3)]
    def initialize(self, t): return [mp.Value('i', 0) for _ in range(3)] if t is Vec else mp.Value('i', 0)
    def encode(self, v, shm):
        if type(v) is Vec:
            for k, x in enumerate(v): shm[k].value = x
        else: shm.value = v
    def decode(self, t, shm): return Vec(x.value for x in shm) if t is Vec else t(shm.value)
class Dom:
    def is_applicable_action(self, a, m): return (a, m)
    def get_transition_value(self, m, a, n): return (m, a, n)
    def slow(self, x): time.sleep(0.02 * (x % 3)); return x
    def pair(self, u, v): return u[0] * 100 + v[0]
    def none(self, *a): return None
def end(ok):
    sys.stdout.flush()
    for p in mp.active_children(): p.kill()
    os._exit(0 if ok else 1)
'''
def s7(id, edits, needs, breaks, demo): plant(id, 'C07', [(F, a, b) for a, b in edits], needs, breaks, H + demo)
s7('c07-free-early', [('''        self._waiting_jobs[i].recv()
        r = self._job_results[i]
        self._job_results[i] = None
        self._active_domains[i] = False
        return r''', '''        self._waiting_jobs[i].recv()
        self._active_domains[i] = False
        r = self._job_results[i]
        self._job_results[i] = None
        return r''')], 'two threads sharing a pipe pool: one is given the worker between the moment it is freed and the moment its result is read',
 'a caller reads nothing or the result of somebody else', '''
pd = PipeParallelDomain(Dom, nb_domains=1)
pd._launch_processes()
class Slow:                      # the reader of the result slot is preempted
    def __init__(self, x): self.x = x
    def __getitem__(self, k): time.sleep(0.05); return self.x[k]
    def __setitem__(self, k, v): self.x[k] = v
    def __len__(self): return len(self.x)
pd._job_results = Slow(pd._job_results)
bad = []
def caller(t):
    for k in range(5):
        w = pd.slow(10 * t + k)
        r = pd.get_result(w)
        if r != 10 * t + k: bad.append(r)
ts = [threading.Thread(target=caller, args=(t,), daemon=True) for t in range(3)]
for t in ts: t.start()
for t in ts: t.join(20)
end(not bad and not any(t.is_alive() for t in ts))
''')
s7('c07-vector-args', [('''                    type_counters[arg_name] += self._shm_sizes[arg_name]''', '''                    type_counters[arg_name] += 1''')],
 'shared memory, a job with two arguments of the same vector type', 'the second vector overwrites part of the first one', '''
pd = ShmParallelDomain(Dom, Proxy(), nb_domains=1)
w = pd.pair(Vec([1, 2, 3]), Vec([4, 5, 6]))
end(w is not None and pd.get_result(w) == 104)
''')
s7('c07-stale-args', [('''                shm_params[i][:] = [-1] * len(shm_params[i])
                if type(result) is not tuple:
                    result = (result,)''', '''                if type(result) is not tuple:
                    result = (result,)
                if len(result) > 1:
                    shm_params[i][:] = [-1] * len(shm_params[i])''')],
 'shared memory, a job that returns one value (or nothing) and has several arguments', 'arguments of the job are read back as results', '''
pd = ShmParallelDomain(Dom, Proxy(), nb_domains=1)
a = pd.get_result(pd.slow(3))
b = pd.get_result(pd.none(1, 2))
end(a == 3 and b is None)
''')
s7('c07-argument-order', [('''        return self.launch(i, 'is_applicable_action', action, memory)''', '''        return self.launch(i, 'is_applicable_action', memory, action)''')],
 'a parallel call of this one method with arguments that are not interchangeable', 'the worker answers another question than the caller asked', '''
pd = PipeParallelDomain(Dom, nb_domains=2)
end(pd.get_result(pd.is_applicable_action('a', 'm')) == ('a', 'm'))
''')
s7('c07-close-busy', [('''            self._waiting_jobs[i].send(None)
            self._processes[i].join()
            self._processes[i].close()
            self._waiting_jobs[i].close()''', '''            self._waiting_jobs[i].send(None)
            if not self._active_domains[i]:
                self._processes[i].join()
                self._processes[i].close()
            self._waiting_jobs[i].close()''')], 'closing a pipe pool while a job runs or its result has not been read', 'a worker outlives the pool', '''
pd = PipeParallelDomain(Dom, nb_domains=2)
pd.slow(2); pd.slow(2); pd.get_result(0)
pd.close()
end(not [p for p in mp.active_children() if p.name.startswith('Process')])
''')
