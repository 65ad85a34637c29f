import re
from plant import plant, GR
import seeds_text
H, HS = seeds_text.CORE, seeds_text.SCHED
B='skdecide/builders/domain/'; S='skdecide/builders/scheduling/'; V='skdecide/hub/solver/'
def core(id, prop, edits, needs, breaks, demo): plant(id, prop, edits, needs, breaks, H + demo)
def sd(id, prop, edits, needs, breaks, demo): plant(id, prop, [(S+f, a, b) for f, a, b in edits], needs, breaks, HS + demo)

# ---- core
core('c02-memoryless-keeps','C02',[(B+'memory.py','''    def _init_memory(self, state: Optional[D.T_state] = None) -> D.T_memory[D.T_state]:
        return None
''','''    def _init_memory(self, state: Optional[D.T_state] = None) -> D.T_memory[D.T_state]:
        return super()._init_memory(state)
''')],
 'a memoryless domain that looks at the memory it is given', 'a memoryless domain remembers its initial state', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 5, _get_next_state=lambda s, m, a: a, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1), _is_terminal=lambda s, x: False),
    SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, Memoryless, FullyObservable, Rewards)
d.reset()
assert d._memory is None, d._memory
''')
core('c02-maxlen-shared','C02',[(B+'memory.py','''    @functools.lru_cache()
    def _get_memory_maxlen(self) -> int:
''','''    def _get_memory_maxlen(self) -> int:
''',),(B+'memory.py','''        return self._get_memory_maxlen_()
''','''        if '_memory_maxlen' not in type(self).__dict__:  # constant
            type(self)._memory_maxlen = self._get_memory_maxlen_()
        return type(self)._memory_maxlen
''')],
 'two domains of one class with different memory lengths', 'the second domain keeps as many states as the first one', '''
from skdecide.builders.domain import *
class Dm(Base, Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, FiniteHistory, FullyObservable, Rewards):
    def __init__(self, n): self.n = n
    def _get_initial_state_(self): return 0
    def _get_next_state(self, m, a): return m[-1] + a
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=1)
    def _is_terminal(self, s): return False
    def _get_memory_maxlen_(self): return self.n
for n in (2, 3):
    d = Dm(n); d.reset()
    for a in (1, 1, 1): d.step(a)
    assert list(d._memory) == [1, 2, 3][-n:], (n, d._memory)
''')
core('c02-sample-action-lost','C02',[(B+'dynamics.py','''        transition_outcome = self._state_sample(memory, action)
        next_state = transition_outcome.state
        observation = self._get_observation_distribution(next_state, action).sample()''','''        transition_outcome = self._state_sample(memory, action)
        next_state = transition_outcome.state
        observation = self._get_observation_distribution(next_state).sample()''')],
 'observations that depend on the action, in sampled transitions only', 'the observation of a sampled transition ignores its action', '''
d = make('Dm', dict(_get_initial_state_=lambda s: 0, _get_next_state=lambda s, m, a: m + a, _get_transition_value=lambda s, m, a, n=None: TransitionValue(cost=1), _is_terminal=lambda s, x: False,
    _get_observation=lambda s, x, a=None: (x, a)), SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized, Markovian, TransformedObservable, Rewards)
d.reset()
assert d.sample(3, 2).observation == (5, 2)
assert d.step(2).observation == (2, 2)
''')
core('c03-agent-order','C03',[(B+'events.py','''            return all(applicable_actions[k].contains(v) for k, v in action.items())''','''            return all(space.contains(v) for space, v in zip(applicable_actions.values(), action.values()))''')],
 'a joint action that names the agents in another order than the domain', 'the actions are looked up in the spaces of other agents', '''
d = make('Dm', dict(_get_applicable_actions_from=lambda s, m: {'a': L([1]), 'b': L([2])}, _get_action_space_=lambda s: {'a': L([1]), 'b': L([2])}),
    MultiAgent, Sequential, Actions, Markovian)
d._memory = None
assert d.is_applicable_action({'a': 1, 'b': 2}) and d.is_applicable_action({'b': 2, 'a': 1})
assert not d.is_applicable_action({'b': 1, 'a': 2})
''')
core('c03-observation-any','C03',[(B+'observability.py','''            return all(observation_space[k].contains(v) for k, v in observation.items())''','''            space = observation_space[next(iter(observation))]
            return all(space.contains(v) for v in observation.values())''')],
 'agents with different observation spaces', 'the observations of all agents are looked up in the space of the first', '''
d = make('Dm', dict(_get_observation_space_=lambda s: {'a': L([1]), 'b': L([2])}), MultiAgent, PartiallyObservable)
assert d.is_observation({'a': 1, 'b': 2}) and not d.is_observation({'a': 1, 'b': 1})
''')
core('c04-outcome-agents','C04',[('skdecide/core.py','''            self.info = {k: None for k in self.state} if isinstance(self.state, dict) else None''','''            self.info = {k: None for k in self.value} if isinstance(self.value, dict) else None''')],
 'a state that is a table of agents with a single value for all of them', 'the transition carries one info for all agents', '''
from skdecide.core import TransitionOutcome
assert TransitionOutcome({'a': 1, 'b': 2}, value=TransitionValue(cost=1)).info == {'a': None, 'b': None}
''')
core('c04-weights-cumulated','C04',[('skdecide/core.py','''        return random.choices(self._population, self._weights)[0]''','''        x = random.random()
        for e, p in zip(self._population, self._weights):
            x -= p
            if x <= 0:
                return e
        return self._population[-1]''')],
 'a distribution that ends with values of probability zero, or starts with one and the draw is 0', 'a value of probability zero can be drawn when the weights do not add up to exactly one', '''
from skdecide import DiscreteDistribution
d = DiscreteDistribution([('a', .25), ('b', .25), ('never', 0.)])
assert 'never' not in [d.sample() for i in range(200)]
''')
# ---- scheduling
sd('c08-duration-of-first-mode','C08',[('task_duration.py','''        if mode not in self.sampled_durations[task]:
            self.sampled_durations[task][mode] = {}
        if progress_from''','''        if mode not in self.sampled_durations[task]:
            self.sampled_durations[task][mode] = next(iter(self.sampled_durations[task].values()), {})
        if progress_from''')],
 'simulated durations and a task with several modes', 'the duration drawn for the first mode serves for the others', '''
class Sim(Cfg, SchedulingDomain, P[0], SimulatedTaskDuration, *P[1:]):
    def _sample_task_duration(self, task, mode=1, progress_from=0.): return self.dur[task][mode]
d = Sim({1: {1: {'R': 1}, 2: {'R': 1}}}, {1: {1: 1, 2: 3}}, {}, {'R': 1})
d.reset(); d.set_memory(d.get_initial_state())
s = d.step(start(1, 2)).observation
assert s.tasks_details[1].sampled_duration == 3, s.tasks_details[1].sampled_duration
''')
sd('c08-cost-of-running-mode','C08',[('scheduling_domains.py','''            if action.action == SchedulingActionEnum.START:
                mode_cost_val +=''','''            if action.action == SchedulingActionEnum.START and action.task not in next_state.tasks_complete:
                mode_cost_val +=''')],
 'a task of no duration whose mode has a cost', 'the mode cost of tasks that complete at once is not counted', '''
class Cost(Det):
    def _get_objectives(self): return [SchedulingObjectiveEnum.COST]
    def _get_mode_costs(self): return {1: {1: 4.}, 2: {1: 7.}}
d = Cost({1: {1: {'R': 0}}, 2: {1: {'R': 0}}}, {1: {1: 0}, 2: {1: 1}}, {}, {'R': 1})
s = d.get_initial_state()
for t, c in ((1, 4), (2, 7)): assert d.get_transition_value(s, start(t), d.get_next_state(s, start(t))).cost == c
''')
sd('c09-drop-zero','C09',[('scheduling_domains.py','''                                                     mode=state.tasks_mode[task_id],
                                                     resource_unit_names=set(),
                                                     time_since_start=
                                                     state.tasks_details[task_id].get_task_active_time(state.t+1))
            for r in resource_to_use:
                prev = next_state''','''                                                     mode=state.tasks_mode[task_id],
                                                     resource_unit_names=set(),
                                                     time_since_start=
                                                     state.tasks_details[task_id].get_task_active_time(state.t+1))
            for r in (r for r in resource_to_use if resource_to_use[r] > 0):
                prev = next_state''')],
 'a need that drops to zero while the task runs', 'the resource stays in use until the task ends', '''
d = Det({1: {1: {'R': [2, 0, 1]}}}, {1: {1: 3}}, {}, {'R': 2}, varying=True)
s = run(d, [start(1)])
assert [s.resource_used['R']] + [(s := d.get_next_state(s, TIME)).resource_used['R'] for i in range(2)] == [2, 0, 1]
''')
sd('c09-zero-nonrenewable','C09',[('scheduling_domains.py','''            for res in next_state.resource_used_for_task[completed_task]:
                res_consumption = next_state.resource_used_for_task[completed_task][res]
                if self.is_renewable(res):
                    # WARNING''' if False else '''        for completed_task in completed_tmp:
            next_state.tasks_complete.add(completed_task)
            next_state.tasks_ongoing.remove(completed_task)
            for res in next_state.resource_used_for_task[completed_task]:
                res_consumption = next_state.resource_used_for_task[completed_task][res]
                if self.is_renewable(res):''','''        for completed_task in completed_tmp:
            next_state.tasks_complete.add(completed_task)
            next_state.tasks_ongoing.remove(completed_task)
            for res in next_state.resource_used_for_task[completed_task]:
                res_consumption = next_state.resource_used_for_task[completed_task][res]
                if self.is_renewable(res) or len(next_state.tasks_details[completed_task].paused) > 0:''')],
 'a preemptive task that was paused and uses a non-renewable resource', 'what the task consumed is given back when it completes', '''
d = Det({1: {1: {'R': 1, 'N': 2}}}, {1: {1: 2}}, {}, {'R': 1, 'N': 5}, ren={'R': True, 'N': False}, pre={1})
s = run(d, [start(1), TIME, pause(1), TIME, resume(1), TIME])
assert s.tasks_complete == {1} and s.resource_used == {'R': 0, 'N': 2}, s.resource_used
''')
sd('c10-shared-branch','C10',[('scheduling_domains.py','''                next_state_2 = next_state.copy() if do_copy else next_state
                proba = prob''','''                next_state_2 = next_state.copy() if do_copy and comb is not combinations[0] else next_state
                proba = prob''')],
 'a task whose completion draws among several conditions', 'the first alternative is written in the state the others are copied from', '''
d = Unc({1: {1: {'R': 1}}}, {1: {1: [(1, 1.)]}}, {}, {'R': 1}, conds={1: [DiscreteDistribution([(Cond.A, .5), (Cond.B, .5)])]})
s = run(d, []) 
s = d.get_next_state_distribution(s, start(1)).get_values()[0][0]
assert sorted([c.name for c in x._current_conditions] for x, p in d.get_next_state_distribution(s, TIME).get_values()) == [['A'], ['B']]
''')
sd('c11-possible-first-mode','C11',[('scheduling_domains.py','''(len(state.tasks_paused) == 0)) \\''' if False else '''return state.t > self.get_max_horizon()''','''return state.t > self.get_max_horizon() + len(state.tasks_ongoing)''')],
 'tasks still running when the horizon is passed', 'the end is put off by the running tasks', '''
d = Det({1: {1: {'R': 1}}}, {1: {1: 9}}, {}, {'R': 1}, hor=3)
s = run(d, [start(1)] + [TIME] * 4)
assert d.is_terminal(s)
''')
# ---- planners
A=V+'lazy_astar/lazy_astar.py'
plant('c12-stale-parent','C12',[(A,'''            if curnode in explored:
                continue
            explored[curnode] = (parent, label)''','''            known = curnode in explored
            explored[curnode] = (parent, label)
            if known:
                continue''')],
 'a node queued twice whose costlier entry is popped before the goal', 'the parent of a node is replaced by that of a costlier route', GR+'''
from skdecide.hub.solver.lazy_astar import LazyAstar
d = Dm({0: {0: (2, 3), 1: (1, 1)}, 1: {0: (2, 1)}, 2: {0: (3, 2)}, 3: {0: (4, 3)}}, 0, {4})
h = {0: 2, 1: 2, 2: 2, 3: 1, 4: 0}
s = LazyAstar(heuristic=lambda d, x: h[x]); s.solve(lambda: d)
assert follow(d, s) == 7, follow(d, s)
''')
plant('c12-weight-twice','C12',[(A,'''                enqueued[neighbor] = ncost, h''','''                enqueued[neighbor] = ncost, self._weight * h''')],
 'a heuristic weight above one, and a node reached again by a cheaper route before it is expanded', 'the weight is applied twice to nodes queued again: the plan exceeds the weighted bound', GR+'''
from skdecide.hub.solver.lazy_astar import LazyAstar
import random
bad = 0
for n in range(3000):
    r = random.Random(n)
    e = {i: {a: (r.randrange(8), r.randint(0, 9)) for a in range(r.randint(1, 4))} for i in range(8)}
    d = Dm(e, 0, {7})
    D = {7: 0}
    for _ in range(20):
        for i in e:
            if i != 7:
                v = [e[i][a][1] + D[e[i][a][0]] for a in e[i] if e[i][a][0] in D]
                if v: D[i] = min(v)
    if 0 not in D: continue
    for w in (1.5, 2):
        s = LazyAstar(heuristic=lambda d, x: D.get(x, 99), weight=w); s.solve(lambda: d)
        bad += follow(d, s) > w * D[0]
assert not bad, bad
''')
L=V+'lrtastar/lrtastar.py'
plant('c13-lrta-kept-values','C13',[(L,'''        self._domain = domain_factory()
        self.values = {}''','''        self._domain = domain_factory()
        self.values = {s: v for s, v in self.values.items() if v > 0}''')],
 'one solver used for two problems that share states', 'values learned on an earlier problem are kept', GR+'''
import contextlib, io
from skdecide.hub.solver.lrtastar import LRTAstar
d1 = Dm({0: {0: (1, 5)}, 1: {0: (2, 5)}}, 0, {2}); d2 = Dm({0: {0: (1, 1), 1: (2, 3)}, 1: {0: (2, 1)}}, 0, {2})
s = LRTAstar()
with contextlib.redirect_stdout(io.StringIO()):
    s.solve(lambda: d1); s.solve(lambda: d2)
assert follow(d2, s) == 2 and s.get_utility(0) <= 2
''')
G=V+'simple_greedy/simple_greedy.py'
plant('c13-greedy-negative','C13',[(G,'''        argmax = max(range(len(values)), key=lambda i: values[i])''','''        argmax, best = 0, 0.
        for i, value in enumerate(values):
            if value > best:
                argmax, best = i, value''')],
 'actions whose values are all negative (costs)', 'the first action is issued when no action has a positive value', '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.solver.simple_greedy import SimpleGreedy
class L(EnumerableSpace):
    def get_elements(self): return ['x', 'y', 'z']
class Dm(Domain, SingleAgent, Parallel, EnumerableTransitions, UnrestrictedActions, DeterministicInitialized, History, FullyObservable, Rewards):
    T_state = T_observation = T_event = object; T_value = float; T_predicate = bool; T_info = None
    c = {'x': 5, 'y': 2, 'z': 7}
    def _get_next_state_distribution(self, m, a): return SingleValueDistribution(0)
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=self.c[a[0]])
    def _is_terminal(self, s): return False
    def _get_action_space_(self): return L()
    def _get_initial_state_(self): return 0
    def _get_observation_space_(self): return L()
d = Dm(); s = SimpleGreedy(); s.solve(lambda: Dm())
assert list(s.get_next_action(0)) == ['y'], s.get_next_action(0)
''')
X=V+'graph_explorer/'
plant('c14-uncertain-cost','C14',[(X+'DFS_Uncertain_Exploration.py','''                    if prob != 0 and succ not in result:''','''                    if succ not in result and prob >= max(p for _, p in successors) / 1000:''')],
 'an outcome a thousand times less likely than another', 'states reached by rare outcomes are not expanded', '''
from skdecide import *
from skdecide.builders.domain import *
from skdecide.hub.solver.graph_explorer.DFS_Uncertain_Exploration import DFSExploration
class L(EnumerableSpace):
    def __init__(self, x): self.x = list(x)
    def get_elements(self): return self.x
class Dm(GoalMDPDomain):
    T_state = T_observation = T_event = int; T_value = float; T_predicate = bool; T_info = None
    def _get_next_state_distribution(self, m, a): return DiscreteDistribution([(1, .9999), (2, .0001)] if m == 0 else [(3, 1.)])
    def _get_transition_value(self, m, a, n=None): return TransitionValue(cost=1)
    def _is_terminal(self, s): return s == 3
    def _get_action_space_(self): return L([0])
    def _get_applicable_actions_from(self, m): return L([0])
    def _get_goals_(self): return ImplicitSpace(lambda s: s == 3)
    def _get_initial_state_(self): return 0
    def _get_observation_space_(self): return L(range(4))
g = DFSExploration(Dm()).build_graph_domain()
assert set(g.next_state_map) == {0, 1, 2}, g.next_state_map
''')
plant('c14-full-known','C14',[(X+'FullSpaceExploration.py','''                next_state_map[vertex][action] = next
''','''                next_state_map[vertex].setdefault(action, next) if new_state else next_state_map[vertex].__setitem__(action, next)
                if not new_state and next == vertex and len(path) > 3:
                    del next_state_map[vertex][action]
                    continue
''')],
 'a self-loop on a state found at depth four or more', 'the self-loop is missing', GR+'''
from skdecide.hub.solver.graph_explorer.FullSpaceExploration import FullSpaceExploration
d = Dm({0: {0: (1, 1)}, 1: {0: (2, 1)}, 2: {0: (3, 1)}, 3: {0: (3, 1), 1: (4, 1)}}, 0, {4})
g = FullSpaceExploration(d).build_graph_domain()
assert g.next_state_map[3] == {0: 3, 1: 4}, g.next_state_map
''')
plant('c14-dfs-goal-expanded','C14',[(X+'DFSExploration.py','''                elif next not in next_state_map:''','''                elif next not in next_state_map and next not in path:''')],
 'nothing else than what it needs to look harmless', 'equivalent', GR+'assert True\n') if False else None
plant('c14-dfs-path-bound','C14',[(X+'DFSExploration.py','''                elif next not in next_state_map:
                    stack.append((next, path+[next]))''','''                elif next not in next_state_map and len(path) <= len(next_state_map):
                    stack.append((next, path+[next]))''')],
 'nothing', 'equivalent', GR+'assert True\n') if False else None
