from plant import plant
G = 'skdecide/hub/domain/gym/gym.py'
PRE = '''
import contextlib, io, warnings
warnings.simplefilter('ignore')
import gym, numpy as np
from gym import spaces as S
from skdecide.hub.domain.gym import GymDomain, DeterministicInitializedGymDomain, GymWidthDomain, GymDiscreteActionDomain, DeterministicGymDomain, GymPlanningDomain, GymDomainStateProxy, AsGymEnv
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
class Env(gym.Env):
    """Counts its steps up to a limit."""
    def __init__(self, starts=(0,), end=3, shape=None):
        self.starts, self.end, self.k = starts, end, 0
        self.action_space = S.Discrete(2); self.observation_space = S.Box(-99, 99, (2,)) if shape else S.Discrete(99)
        self.shape = shape
    def see(self): return np.array([self.x, 0], dtype=np.float32) if self.shape else self.x
    def reset(self): self.x = self.starts[self.k % len(self.starts)]; self.k += 1; return self.see()
    def step(self, a): self.x += a; return self.see(), 10 * a, self.x >= self.end, {}
GET = lambda e: e.x
def PUT(e, x): e.x = x
'''
def s(i, edits, needs, breaks, demo): plant(i, 'C25', edits, needs, breaks, PRE + demo)
s('c25-no-restore', [(G, "elif memory._context[4] != self._get_state(env):", "elif memory._context[5:] and memory._context[4] != self._get_state(env):")],
 'a domain restoring snapshots that is not the planning one, continued from an earlier state', 'the environment is not put back into the state asked for', '''
d = DeterministicGymDomain(Env(), PUT, GET); s = d.reset()
a = d.get_next_state(s, 1); b = d.get_next_state(s, 1)
assert a == b, (a, b)
''')
s('c25-shared-copy', [(G, "            env = deepcopy(env)\n", "            env = deepcopy(env) if memory._context[3] is not None else env\n")],
 'two continuations of the initial state, in the copying mode', 'the second one continues the first', '''
d = DeterministicGymDomain(Env()); s = d.reset()
a = d.get_next_state(s, 1); b = d.get_next_state(s, 1)
assert a == b, (a, b)
''')
s('c25-late-depth', [(G, "next_state._context.append(memory._context[5] + 1)", "next_state._context.append(self._current_depth + 1 if memory._context[5] < self._current_depth - 1 else memory._context[5] + 1)")],
 'going back to a shallow state after a deep one', 'depth (and so the goal) counts other branches', '''
d = GymPlanningDomain(Env(end=99), PUT, GET, max_depth=4); s = quiet(d.reset)
x1 = x = quiet(d.get_next_state, s, 1)
for _ in range(2): x = quiet(d.get_next_state, x, 1)
y = quiet(d.get_next_state, x1, 1)
assert not d.is_goal(y)
''')
s('c25-end-goal', [(G, "(self._termination_is_goal and (observation", "(self._termination_is_goal and self._current_depth < self._max_depth and (observation")],
 'an episode ending after another branch was explored to the depth limit', 'its end is no goal any more', '''
d = GymPlanningDomain(Env(end=2), PUT, GET, termination_is_goal=True, max_depth=3); s = quiet(d.reset)
a = x = quiet(d.get_next_state, s, 1)
for _ in range(2): x = quiet(d.get_next_state, x, 0)
z = quiet(d.get_next_state, a, 1)
assert d.is_terminal(z) and d.is_goal(z)
''')
s('c25-moving-start', [(G, '''                self._set_state(self._gym_env, self._initial_env_state)
            else:
                self._gym_env = deepcopy(self._init_env)
        return''', '''                self._set_state(self._gym_env, self._initial_env_state)
            else:
                self._gym_env = self._init_env
        return''')],
 'a third reset in the copying mode', 'the saved initial environment is played on', '''
d = DeterministicInitializedGymDomain(Env()); d.reset()
for _ in range(2): d.reset(); o = d.step(1)
assert o.observation._state == 1, o.observation
''')
s('c25-hash', [(G, "return hash(tuple(self.flatten(self._state)))", "return hash(str(self._state)) if not isinstance(self._state, dict) else hash(tuple(self.flatten(self._state)))")],
 'equal observations written differently (1 and 1.0)', 'equal states have different hashes', '''
a, b = GymDomainStateProxy((1, np.array([2.]))), GymDomainStateProxy((1., np.array([2])))
assert a == b and hash(a) == hash(b)
''')
s('c25-bee2-edge', [(G, "            elif x > self.gub:", "            elif x > self.gub or (x == self.gub and len(self.I) > 2):")],
 'the largest value seen coming again after three intervals', 'a value changes its interval', '''
class W(GymWidthDomain, DeterministicGymDomain):
    def __init__(self, e): DeterministicGymDomain.__init__(self, e); GymWidthDomain.__init__(self)
e = Env(shape=1); d = W(e)
f = [d.bee2_features(np.array([x, 0], dtype=np.float32))[0] for x in (0, 1, 2, 3, 3)]
assert f[3] == f[4], f
''')
s('c25-branching', [(G, "if self._branching_factor is not None and len(self._applicable_actions.get_elements()) > self._branching_factor:", "if self._branching_factor is not None and len(self._applicable_actions.get_elements()) >= self._branching_factor > 1:"), (G, "self._applicable_actions = ListSpace(random.sample(self._applicable_actions.get_elements(), self._branching_factor))", "self._applicable_actions = ListSpace(random.choices(self._applicable_actions.get_elements(), k=self._branching_factor))")],
 'a limited number of actions', 'the same action is offered twice and others are missing', '''
class A(GymDiscreteActionDomain, DeterministicGymDomain):
    def __init__(self, e, **k): DeterministicGymDomain.__init__(self, e); GymDiscreteActionDomain.__init__(self, **k)
e = Env(); e.action_space = S.Discrete(5)
assert all(len(set(A(e, branching_factor=4).get_applicable_actions(0).get_elements())) == 4 for _ in range(20))
''')
