from plant import plant
B='skdecide/builders/domain/'; C='skdecide/core.py'
H='''
import random
from skdecide import *
from skdecide import Domain
from skdecide.builders.domain import *
class L(EnumerableSpace):
    def __init__(self, x): self.x = list(x)
    def get_elements(self): return self.x
class Base:
    T_state = T_observation = T_event = object
    T_value = float; T_predicate = bool; T_info = None
def make(name, over, *mix):
    return type(name, (type('A', (Base,), over), Domain) + mix, {})()
'''
def sc(id, prop, edits, needs, breaks, demo): plant(id, prop, edits, needs, breaks, H + demo)

sc('c02-hist-selfloop', 'C02', [(B+'dynamics.py', '''        if self.T_memory is Memory:
            self._memory.append(next_state)''', '''        if self.T_memory is Memory:
            if not self._memory or self._memory[-1] is not next_state:
                self._memory.append(next_state)''')],
 'a domain with a history whose transition stays in the very same state object', 'a self-loop step is not recorded in the memory', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 0, _get_next_state=lambda s, m, a: max(m[-1] + a, 0), _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1),
    _is_terminal=lambda s, x: False, _get_memory_maxlen_=lambda s: 3),
    SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, FiniteHistory, FullyObservable, Rewards)
d.reset()
for a in (1, 0, 1): d.step(a)
assert list(d._memory) == [1, 1, 2], d._memory
''')
sc('c02-remembers-observation', 'C02', [(B+'dynamics.py', '''        if self.T_memory is Memory:
            self._memory.append(next_state)''', '''        if self.T_memory is Memory:
            self._memory.append(next_state if self._get_memory_maxlen() is None else observation)''')],
 'partial observability together with a bounded history longer than one state', 'the simulator remembers what was observed instead of the state', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 0, _get_next_state=lambda s, m, a: m[-1] + a, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1),
    _is_terminal=lambda s, x: False, _get_memory_maxlen_=lambda s: 2, _get_observation=lambda s, x, a=None: -x),
    SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, FiniteHistory, TransformedObservable, Rewards)
d.reset()
for a in (1, 1): d.step(a)
assert list(d._memory) == [1, 2], d._memory
''')
sc('c02-falsy-initial', 'C02', [(B+'memory.py', '''        content = [state] if state is not None else []
        return Memory(content, maxlen=self._get_memory_maxlen())''', '''        content = [state] if state else []
        return Memory(content, maxlen=self._get_memory_maxlen())''')],
 'a history domain whose initial state is a falsy value such as 0', 'the initial state is missing from the memory after a reset', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 0, _get_next_state=lambda s, m, a: (m[-1] if m else 9) + a, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1),
    _is_terminal=lambda s, x: False),
    SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, History, FullyObservable, Rewards)
d.reset()
d.step(1)
assert list(d._memory) == [0, 1], d._memory
''')
sc('c03-memory-or', 'C03', [(B+'events.py', '''        if memory is None:
            memory = self._memory
        return self._is_applicable_action_from(action, memory)''', '''        return self._is_applicable_action_from(action, memory or self._memory)''')],
 'asking applicability in an explicitly given state that is falsy while the domain stands in another one', 'applicability is answered for the current memory instead of the given one', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 1, _get_next_state=lambda s, m, a: m, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1),
    _is_terminal=lambda s, x: False, _get_applicable_actions_from=lambda s, m: L([10 + m])),
    SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Rewards)
d.reset()
for x in (0, 1):
    assert list(d.get_applicable_actions(x).get_elements()) == [10 + x]
    assert d.is_applicable_action(10 + x, x) and not d.is_applicable_action(11 - x, x)
''')
sc('c03-goal-subset', 'C03', [(B+'goals.py', '''            return all(goals[k].contains(v) for k, v in observation.items())''', '''            reached = [k for k, v in observation.items() if goals[k].contains(v)]
            return len(reached) >= len(set(goals)) - 1 if len(goals) > 2 else len(reached) == len(goals)''')],
 'a goal domain with more than two agents of which all but one are at their goal', 'a state is reported a goal although one agent is not at its goal', '''
d = make('Dm', dict(_get_goals_=lambda s: {k: L([1]) for k in 'abc'}), MultiAgent, Goals)
assert d.is_goal(dict(a=1, b=1, c=1)) and not d.is_goal(dict(a=1, b=1, c=0)) and not d.is_goal(dict(a=0, b=0, c=0))
''')
sc('c03-events-now', 'C03', [(B+'events.py', '''        return self._get_enabled_events_from(memory).contains(event)''', '''        return self._is_action(event) or self._get_enabled_events_from(memory).contains(event)''')],
 'a domain with uncontrollable events where an event that is also an action is asked for in a memory that does not enable it', 'an event is reported enabled although it does not belong to the enabled events', '''
d = make('Dm', dict(_get_action_space_=lambda s: L([1, 2]), _get_enabled_events_from=lambda s, m: L([2, 7])), SingleAgent, Events, Markovian)
assert d.is_enabled_event(7, 0) and d.is_enabled_event(2, 0) and not d.is_enabled_event(1, 0)
''')
sc('c04-duplicate-support', 'C04', [(C, '''        self._population = unzip_values[0]
        self._weights = unzip_values[1]''', '''        self._population = [e for i, e in enumerate(unzip_values[0]) if e not in unzip_values[0][:i]]
        self._weights = unzip_values[1][-len(self._population):]''')],
 'a discrete distribution that declares one value twice, next to a value of probability zero', 'samples fall outside the support or with the wrong weights', '''
random.seed(1)
d = DiscreteDistribution([('a', 0.5), ('b', 0.), ('a', 0.5)])
assert all(d.sample() == 'a' for _ in range(200))
''')
sc('c04-value-resampled', 'C04', [(B+'dynamics.py', '''        value = self._get_transition_value(memory, action, next_state)''', '''        value = self._get_transition_value(memory, action, next_state if self._is_terminal(next_state) or self.T_memory is not Memory else memory[-1] if len(memory) > 1 else next_state)''')],
 'an uncertain domain with a history of at least two states and a value that depends on the next state', 'the value of a sampled transition is not the one of the sampled next state', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 0, _get_next_state=lambda s, m, a: m[-1] + a, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=n),
    _is_terminal=lambda s, x: False), SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, History, FullyObservable, Rewards)
d.reset()
assert [d.step(a).value.cost for a in (1, 1, 2)] == [1, 2, 4]
''')
sc('c04-zero-cost', 'C04', [(B+'value.py', '''        return cost >= 0''', '''        return cost > 0''')],
 'a free transition in a positive-costs domain', 'a zero cost is refused by the value check of a positive-costs domain', '''
d = make('Dm', {}, SingleAgent, PositiveCosts)
assert d.check_value(TransitionValue()) and d.check_value(TransitionValue(cost=1)) and not d.check_value(TransitionValue(cost=-1))
''')
