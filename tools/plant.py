"""plant(id, prop, edits, needs, breaks, demo): writes seeded/<id> from (file, old, new) edits of /repo's HEAD."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -W ignore demo.py
'''
def plant(id, prop, edits, needs, breaks, demo):
    t = tempfile.mkdtemp(prefix='plant_')
    try:
        subprocess.check_call('git clone -q /repo %s/r' % t, shell=True)
        for f, old, new in edits:
            p = '%s/r/%s' % (t, f)
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            assert s.count(old) == 1, (id, f, s.count(old), old)
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        diff = subprocess.check_output('git diff', shell=True, cwd=t + '/r')
    finally:
        shutil.rmtree(t)
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
GR='''
from skdecide import *
from skdecide.builders.domain import *
class L(EnumerableSpace):
    def __init__(self, x): self.x = list(x)
    def get_elements(self): return self.x
class Dm(DeterministicPlanningDomain):
    T_state = T_observation = T_event = int
    T_value = float; T_predicate = bool; T_info = None
    def __init__(self, edges, init, goals): self.e, self.i, self.g = edges, init, goals
    def _get_next_state(self, m, a): return self.e[m][a][0]
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=self.e[m][a][1])
    def _is_terminal(self, s): return s in self.g
    def _get_action_space_(self): return L(range(9))
    def _get_applicable_actions_from(self, m): return L(self.e.get(m, {}))
    def _get_goals_(self): return ImplicitSpace(lambda s: s in self.g)
    def _get_initial_state_(self): return self.i
    def _get_observation_space_(self): return L(range(9))
def follow(d, s):
    x, cost, n = d.i, 0, 0
    while x not in d.g and n < 20:
        a = s.get_next_action(x); cost += d.e[x][a][1]; x = d.e[x][a][0]; n += 1
    return cost
'''
