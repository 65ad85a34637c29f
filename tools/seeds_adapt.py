from plant import plant
B='skdecide/builders/domain/'; C='skdecide/core.py'
H='''from __future__ import annotations
from typing import Optional
from skdecide import *
from skdecide import Domain
from skdecide.core import autocast
from skdecide.builders.domain import *
class Multi(Domain): pass
class Single(Domain, SingleAgent, Sequential, Environment, UnrestrictedActions, Markovian, FullyObservable, Rewards): pass
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C01', edits, needs, breaks, H + demo)
s('c01-optional-falsy', [(C, 'cast(obj, src[0], dst[0]) if obj is not None else None', 'cast(obj, src[0], dst[0]) if obj else None')],
 'an optional argument whose value is falsy (state 0, empty memory) crossing levels', 'the argument is dropped and the domain falls back to its current memory', '''
def f(memory: Optional[D.T_memory[D.T_state]]): return memory
assert autocast(f, Multi, Single)(0) == Memory([0])
''')
s('c01-needed-first', [(C, '''        return any(cast_needed(src_sub_hintrees[i], dst_sub_hintrees[i]) for i in range(len(src_sub_hintrees)))''',
 '''        return len(src_sub_hintrees) > 0 and cast_needed(src_sub_hintrees[0], dst_sub_hintrees[0])''')],
 'a structure whose first part is the same at both levels but a later part is not (constraints of two Markovian domains of different agents)', 'the later parts keep the wrapping of the other level', '''
class A(Domain, MultiAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Constrained, Rewards): pass
class B_(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, DeterministicInitialized, Markovian, FullyObservable, Constrained, Rewards): pass
seen = []
c = ImplicitConstraint(lambda m, a, n: seen.append(a) or True)
f = autocast(Constrained.get_constraints, B_, A)
class O:
    def _get_constraints(self): return [c]
autocast(Constrained.get_constraints, B_, A)(O())[0].check(1, {'agent': 2}, 3)
assert seen == [2], seen
''')
s('c01-bound-negated', [(C, '''        return BoundConstraint(cast_evaluate_function, self._inequality, self._bound, self._depends_on_next_state)''',
 '''        return BoundConstraint(cast_evaluate_function, self._inequality, self._bound)''')],
 'a bound constraint independent of the next state seen from another level', 'the view says the constraint depends on the next state', '''
class O:
    def _get_constraints(self): return [BoundConstraint(lambda m, a, n: 0, '<', 1, False)]
assert autocast(Constrained.get_constraints, Single, Multi)(O())[0].is_constraint_dependent_on_next_state() is False
''')
s('c01-weights-merged', [(C, '''        return DiscreteDistribution([(cast(e, src_sub[0], dst_sub[0]), p) for e, p in self._values])''',
 '''        return DiscreteDistribution([(cast(e, src_sub[0], dst_sub[0]), p) for e, p in zip(self._population, sorted(self._weights))])''')],
 'a distribution whose weights are not in increasing order, over actions or observations of another level', 'outcomes get the probability of one another', '''
def f() -> Distribution[D.T_agent[D.T_observation]]: return DiscreteDistribution([('x', .7), ('y', .3)])
assert autocast(f, Single, Multi)().get_values() == [({'agent': 'x'}, .7), ({'agent': 'y'}, .3)]
''')
s('c01-observation-action', [(B + 'observability.py', '''    def get_observation_distribution(self, state: D.T_state,
                                     action: Optional[D.T_agent[D.T_concurrency[D.T_event]]] = None) -> Distribution[
            D.T_agent[D.T_observation]]:
        """Get the probability distribution of observation of next state given''' if False else '''        return self._get_observation_distribution(state, action)

    def _get_observation_distribution(self''', '''        return self._get_observation_distribution(state, action)
    get_observation_distribution.__annotations__ = dict(get_observation_distribution.__annotations__, action='Optional[D.T_agent[D.T_event]]')

    def _get_observation_distribution(self''')],
 'the observation distribution of a sequential domain asked by a parallel caller', 'the domain receives a list of one action instead of the action', '''
class P(Domain, SingleAgent, Parallel, UncertainTransitions, Actions, Initializable, Markovian, PartiallyObservable, Rewards): pass
class S(Domain, SingleAgent, Sequential, UncertainTransitions, Actions, Initializable, Markovian, PartiallyObservable, Rewards): pass
seen = []
class O:
    def _get_observation_distribution(self, state, action=None):
        seen.append(action); return SingleValueDistribution(state)
autocast(PartiallyObservable.get_observation_distribution, S, P)(O(), 1, ['a'])
assert seen == ['a'], seen
''')
s('c01-outcome-info', [(C, '''        return TransitionOutcome(cast(self.state, src_sub[0], dst_sub[0]), cast(self.value, src_sub[1], dst_sub[1]),
                                 self.termination, cast(self.info, src_sub[2], dst_sub[2]))''', '''        return TransitionOutcome(cast(self.state, src_sub[0], dst_sub[0]), cast(self.value, src_sub[1], dst_sub[1]),
                                 self.termination, self.info and cast(self.info, src_sub[2], dst_sub[2]))''')],
 'transition outcomes with falsy information (0, empty) crossing levels', 'the information is not wrapped per agent', '''
def f() -> TransitionOutcome[D.T_state, D.T_agent[TransitionValue[D.T_value]], D.T_agent[D.T_info]]: return TransitionOutcome(1, TransitionValue(cost=1), False, 0)
assert autocast(f, Single, Multi)().info == {'agent': 0}
''')
