from plant import plant
U='skdecide/utils.py'
H='''
import random
from skdecide import *
from skdecide import Domain, rollout, rollout_episode
from skdecide.builders.domain import *
class L(EnumerableSpace, SamplableSpace):
    def __init__(self, x): self.x = list(x)
    def get_elements(self): return self.x
    def sample(self): return random.choice(self.x)
class Base:
    T_state = T_observation = T_event = object
    T_value = float; T_predicate = bool; T_info = None
    log = ()
    def step(self, a): self.log = self.log + (a,); return super().step(a)
    def reset(self): self.log = self.log + ('reset',); return super().reset()
def make(over, *mix):
    f = dict(_get_initial_state_=lambda s: 0, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=a), _is_terminal=lambda s, x: x >= 4,
             _get_action_space_=lambda s: L([1, 2]), _get_observation_space_=lambda s: L(range(9)))
    f.update(over)
    return type('Dm', (type('A', (Base,), f), Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized) + mix + (Rewards,), {})()
class Pol:
    def __init__(self, acts): self.acts, self.seen, self.i = acts, [], 0
    def reset(self): pass
    def sample_action(self, o):
        self.seen.append(o); self.i += 1
        return self.acts[(self.i - 1) % len(self.acts)]
'''
def s6(id, edits, needs, breaks, demo): plant(id, 'C06', edits, needs, breaks, H + demo)
s6('c06-step-bound', [(U, '''        # Run episode
        step = 1

        if save_result_directory''', '''        # Run episode
        step = 1 if max_steps is None or i_episode == 0 else min(step, max_steps)

        if save_result_directory''')], 'several episodes with a step bound', 'later episodes are cut short of the step bound', '''
d = make(dict(_get_next_state=lambda s, m, a: 0), Markovian, FullyObservable)
rollout(d, Pol([1, 2]), num_episodes=2, max_steps=3, verbose=False)
assert d.log == ('reset', 1, 2, 1, 'reset', 2, 1, 2), d.log
''')
s6('c06-repeated-observation', [(U, '''            action = solver.sample_action(observation)
            if action_formatter is not None:
                logger.debug('Action: {}'.format(action_formatter(action)))
            if observation_is_memory:''', '''            if len(observations) < 2 or observations[-1] != observations[-2]:
                action = solver.sample_action(observation)
            if action_formatter is not None:
                logger.debug('Action: {}'.format(action_formatter(action)))
            if observation_is_memory:''')], 'rollout_episode under a stochastic or stateful policy, two equal observations in a row',
 'the policy is not asked for an action when the observation did not change', '''
d = make(dict(_get_next_state=lambda s, m, a: m + a - 1), Markovian, FullyObservable)
o, a, v = rollout_episode(d, Pol([1, 2]), max_steps=4, verbose=False)
assert a == [1, 2, 1, 2] and o == [0, 0, 1, 1, 2], (o, a)
''')
s6('c06-oldest-state', [(U, '''            domain.set_memory(from_memory)
            last_state = from_memory[-1] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug(''', '''            domain.set_memory(from_memory)
            last_state = from_memory[0] if has_memory else from_memory
            observation = domain.get_observation_distribution(last_state, from_action).sample()
        logger.debug(''')], 'a rollout from a given history of several states', 'the policy is first shown an observation of the oldest state of the history', '''
from skdecide.core import Memory
d = make(dict(_get_next_state=lambda s, m, a: m[-1] + a), History, FullyObservable)
p = Pol([1])
rollout(d, p, from_memory=Memory([0, 1, 2]), max_steps=2, verbose=False)
assert p.seen == [2, 3], p.seen
''')
s6('c06-lost-terminal', [(U, '''            observations.append(observation)
            actions.append(action)
            values.append(outcome.value)
''', '''            if outcome.termination and has_goal and not domain.is_goal(observation):
                break
            observations.append(observation)
            actions.append(action)
            values.append(outcome.value)
''')], 'rollout_episode on a goal domain whose episode terminates elsewhere than in a goal', 'the last transition of the episode is not reported', '''
d = make(dict(_get_next_state=lambda s, m, a: m + a, _get_goals_=lambda s: L([5])), Markovian, FullyObservable, Goals)
o, a, v = rollout_episode(d, Pol([2]), max_steps=9, verbose=False)
assert o == [0, 2, 4] and a == [2, 2] and len(v) == 2, (o, a)
''')
