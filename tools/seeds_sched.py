from plant import plant
S='skdecide/builders/scheduling/'
H='''
from skdecide import *
from skdecide.builders.scheduling.scheduling_domains import *
from skdecide.builders.scheduling.scheduling_domains import SchedulingDomain, UncertainSchedulingDomain, DeterministicSchedulingDomain
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as E
from skdecide.builders.scheduling.modes import ConstantModeConsumption, VaryingModeConsumption
from skdecide.builders.scheduling.preemptivity import ResumeType
from skdecide.builders.domain import *
from skdecide.builders.scheduling.task_duration import UniformBoundedTaskDuration
from enum import Enum
class Cond(Enum):
    A = 1; B = 2
class Cfg:
    def __init__(self, need, dur, succ, cap, ren=None, hor=20, pre=None, conds=None, exist=None, varying=False):
        mk = VaryingModeConsumption if varying else ConstantModeConsumption
        self.modes = {t: {m: mk(dict(n)) for m, n in need[t].items()} for t in need}
        self.dur, self.succ, self.cap, self.hor = dur, succ, cap, hor
        self.ren = ren or {r: True for r in cap}
        self.pre = pre or set()
        self.conds, self.exist = conds or {}, exist or {}
        self.initialize_domain()
    def _get_tasks_modes(self): return self.modes
    def _get_successors(self): return {t: self.succ.get(t, []) for t in self.modes}
    def _get_tasks_ids(self): return set(self.modes)
    def _get_max_horizon(self): return self.hor
    def _get_resource_types_names(self): return list(self.cap)
    def _get_resource_renewability(self): return self.ren
    def _get_objectives(self): return [SchedulingObjectiveEnum.MAKESPAN]
    def _get_quantity_resource(self, resource, time, **kw):
        q = self.cap[resource]
        return q[min(time, len(q) - 1)] if isinstance(q, list) else q
    def _get_task_preemptivity(self): return {t: t in self.pre for t in self.modes}
    def _get_task_resuming_type(self): return {t: ResumeType.Resume for t in self.modes}
    def _get_task_paused_non_renewable_resource_returned(self): return {t: True for t in self.modes}
    def _get_all_condition_items(self): return Cond
    def _get_task_on_completion_added_conditions(self): return self.conds
    def _get_task_existence_conditions(self): return self.exist
P = (MultiMode, DeterministicTaskProgress, WithoutPreallocations, WithoutTimeLag, WithoutTimeWindow, WithoutResourceUnit,
     WithoutResourceSkills, DeterministicResourceAvailabilityChanges, WithoutModeCosts, WithoutResourceCosts)
class Det(Cfg, DeterministicSchedulingDomain, P[0], DeterministicTaskDuration, *P[1:]):
    def _get_task_duration(self, task, mode=1, progress_from=0.): return self.dur[task][mode]
class Unc(Cfg, UncertainSchedulingDomain, P[0], UncertainUnivariateTaskDuration, *P[1:]):
    def _get_task_duration_distribution(self, task, mode=1, progress_from=0., multivariate_settings=None):
        return DiscreteDistribution(self.dur[task][mode])
def start(t, m=1): return SchedulingAction(task=t, action=E.START, mode=m, time_progress=False)
def pause(t): return SchedulingAction(task=t, action=E.PAUSE, mode=None, time_progress=False)
def resume(t, m=1): return SchedulingAction(task=t, action=E.RESUME, mode=m, time_progress=False)
TIME = SchedulingAction(task=None, action=E.TIME_PR, mode=None, time_progress=True)
def run(d, acts, s=None):
    s = s or d.get_initial_state()
    for a in acts: s = d.get_next_state(s, a)
    return s
'''
def sd(id, prop, edits, needs, breaks, demo):
    plant(id, prop, [(S+f, a, b) for f, a, b in edits], needs, breaks, H + demo)

sd('c08-mode-kept', 'C08', [('scheduling_domains.py',
'''            mode = action.mode
            next_state.tasks_mode[started_task] = mode
            next_state.tasks_ongoing.add(started_task)
            next_state.tasks_remaining.remove(started_task)
            next_state.tasks_details[started_task].start = next_state.t
            next_state.tasks_details[started_task].resources = resource_to_use
            next_state.tasks_details[started_task].sampled_duration = \\
                self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)''',
'''            mode = action.mode
            next_state.tasks_mode.setdefault(started_task, mode)
            next_state.tasks_ongoing.add(started_task)
            next_state.tasks_remaining.remove(started_task)
            next_state.tasks_details[started_task].start = next_state.t
            next_state.tasks_details[started_task].resources = resource_to_use
            next_state.tasks_details[started_task].sampled_duration = \\
                self.get_latest_sampled_duration(task=started_task, mode=next_state.tasks_mode[started_task], progress_from=0.)'''),
 ('scheduling_domains_modelling.py', '''        s.tasks_mode = deepcopy(self.tasks_mode)''', '''        s.tasks_mode = self.tasks_mode''')],
 'two branches explored from one state (a graph search), starting the same task in different modes',
 'states copied from one another share the mode table and the first mode chosen anywhere wins: the task runs with the duration of another mode', '''
d = Det({1: {1: {'R': 1}, 2: {'R': 1}}}, {1: {1: 1, 2: 3}}, {}, {'R': 1})
s = d.get_initial_state()
a = d.get_next_state(s, start(1, 1)); b = d.get_next_state(s, start(1, 2))
assert a.tasks_mode[1] == 1 and b.tasks_mode[1] == 2 and s.tasks_mode == {}
assert b.tasks_details[1].sampled_duration == 3
''')
sd('c08-paused-shared', 'C08', [('scheduling_domains_modelling.py', '''        s.tasks_details = deepcopy(self.tasks_details)''',
'''        s.tasks_details = {task: copy(details) for task, details in self.tasks_details.items()}'''),
('scheduling_domains_modelling.py', '''from copy import deepcopy''', '''from copy import copy, deepcopy''')],
 'a preemptive task paused in one branch while another branch of the same state goes on',
 'the pause and resume dates recorded in one branch appear in the states of all other branches', '''
d = Det({1: {1: {'R': 1}}}, {1: {1: 3}}, {}, {'R': 1}, pre={1})
s = run(d, [start(1), TIME])
b = d.get_next_state(s, pause(1))
assert s.tasks_details[1].paused == [] and b.tasks_details[1].paused == [1]
assert d.get_next_state(s, TIME).tasks_details[1].paused == []
''')
sd('c08-round-progress', 'C08', [('scheduling_domains.py', '''        for task_id in next_state.tasks_ongoing:
            if next_state.tasks_progress[task_id] >= 0.9999:
                next_state.tasks_progress[task_id] = 1
                completed_tmp.append(task_id)
        for completed_task''', '''        for task_id in next_state.tasks_ongoing:
            if next_state.tasks_progress[task_id] >= 1. - 1. / (next_state.tasks_details[task_id].sampled_duration + 1.) ** 2:
                next_state.tasks_progress[task_id] = 1
                completed_tmp.append(task_id)
        for completed_task'''), ('task_progress.py','''            progress = float((t_to - t_from)) / float(duration)''','''            progress = round(float((t_to - t_from)) / float(duration), 1)''')],
 'a duration that is not a divisor of ten (6: 0.2 per step)',
 'progress is rounded to tenths and completion is detected with a tolerance adapted to short durations: tasks of 6 units complete after 5', '''
for n in range(1, 9):
    d = Det({1: {1: {'R': 1}}}, {1: {1: n}}, {}, {'R': 1})
    s = run(d, [start(1)] + [TIME] * (n - 1))
    assert 1 in s.tasks_ongoing, n
    assert run(d, [TIME], s).tasks_complete == {1}, n
''')
sd('c09-avail-lag', 'C09', [('scheduling_domains.py', '''        if action.time_progress:
            for next_state, _ in next_states.get_values():
                # update the resource used / resource availability function on the possible new availability
                # and consumption of ongoing task -> quite boring to code and debug probably
                for res in self.get_resource_units_names():
                    next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
                for res in self.get_resource_types_names():
                    next_state.resource_availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)''',
'''        if action.time_progress:
            availability = {}
            for next_state, _ in next_states.get_values():
                # update the resource used / resource availability function on the possible new availability
                # and consumption of ongoing task -> quite boring to code and debug probably
                for res in self.get_resource_units_names() + self.get_resource_types_names():
                    if res not in availability:
                        availability[res] = self.sample_quantity_resource(resource=res, time=next_state.t)
                    if res not in next_state.resource_used_for_task.get(min(next_state.tasks_ongoing, default=None), {}):
                        next_state.resource_availability[res] = availability[res]
                next_state.resource_availability.update({r: availability[r] for r in availability
                                                         if availability[r] >= next_state.resource_used[r]})''')],
 'a stochastic domain with a calendar whose capacity drops below what a running task uses',
 'the declared drop of the availability is ignored while the running tasks use more, so the state is not over-consuming and other tasks may start', '''
d = Unc({1: {1: {'R': 2}}, 2: {1: {'R': 0}}}, {1: {1: [(2, .5), (3, .5)]}, 2: {1: [(1, 1.)]}}, {}, {'R': [2, 1, 2, 2]})
s = d.get_next_state_distribution(d.get_initial_state(), start(1)).get_values()[0][0]
for x, p in d.get_next_state_distribution(s, TIME).get_values():
    assert x.resource_availability['R'] == 1 and x.resource_used['R'] == 2
''')
sd('c09-pause-active', 'C09', [('task.py', '''            time_paused += time_resumed - self.paused[i]''', '''            time_paused = max(time_paused, time_resumed - self.paused[i])''')],
 'a task with time-varying needs paused and resumed twice',
 'the active time forgets all but the longest pause, so a task paused twice uses the needs of a wrong date', '''
d = Det({1: {1: {'R': [1, 2, 3, 1, 1, 1, 1, 1]}}}, {1: {1: 4}}, {}, {'R': 5}, pre={1}, varying=True)
s = run(d, [start(1), TIME, pause(1), TIME, resume(1), TIME, pause(1), TIME, resume(1)])
assert s.resource_used['R'] == 3, s.resource_used
''')
sd('c09-skill-max', 'C09', [('skills.py', '''                if s in skills:
                    skills[s] += skill_of_ressource[s]''', '''                if s in skills:
                    skills[s] = max(skills[s], len(resource_used) * skill_of_ressource[s] // 2)''')],
 'a multi-skill task staffed with several people none of whom suffices alone', 'skills of the crew are extrapolated from the best person instead of added: under-qualified crews start the task', '''
from skdecide.hub.domain.rcpsp.rcpsp_sk import MSRCPSP
d = MSRCPSP(skills_names=['S'], resource_unit_names=['a', 'b', 'c'], resource_type_names=['R'],
            resource_skills={'R': {}, 'a': {'S': 2}, 'b': {'S': 0}, 'c': {'S': 1}}, task_ids=[1, 2, 3],
            tasks_mode={1: {1: {'R': 0, 'duration': 0}}, 2: {1: {'R': 1, 'S': 3, 'duration': 2}}, 3: {1: {'R': 0, 'duration': 0}}},
            successors={1: [2], 2: [3], 3: []}, max_horizon=10, resource_availability={'R': 1, 'a': 1, 'b': 1, 'c': 1},
            resource_renewable={'R': True, 'a': True, 'b': True, 'c': True})
def st(u): return SchedulingAction(task=2, action=E.START, mode=1, time_progress=False, resource_unit_names=u)
s = d.get_next_state(d.get_initial_state(), start(1))
assert 2 in d.get_next_state(s, st({'a', 'b'})).tasks_remaining
assert 2 in d.get_next_state(s, st({'a', 'c'})).tasks_ongoing
''')
sd('c10-uniform-merge', 'C10', [('task_duration.py', '''        n_vals = ub - lb + 1
        p = 1.0 / float(n_vals)
        values = [(x, p) for x in range(lb, ub+1)]''', '''        n_vals = ub - lb + 1
        p = 1.0 / float(n_vals)
        values = [(x, p) for x in range(max(lb, 1), ub+1)]''')],
 'a bounded uniform duration whose lower bound is zero', 'the zero-duration alternative disappears and the branch probabilities do not sum to one', '''
class Uni(Cfg, UncertainSchedulingDomain, P[0], UniformBoundedTaskDuration, *P[1:]):
    def _get_task_duration_upper_bound(self, task, mode=1, progress_from=0.): return 2
    def _get_task_duration_lower_bound(self, task, mode=1, progress_from=0.): return 0
d = Uni({1: {1: {'R': 1}}}, None, {}, {'R': 1})
q = d.get_next_state_distribution(d.get_initial_state(), start(1)).get_values()
assert abs(sum(p for _, p in q) - 1) < 1e-9 and len(q) == 3
''')
sd('c10-cond-any', 'C10', [('conditional_tasks.py', '''                test = True
                for cond in self.get_task_existence_conditions()[id]:
                    if cond not in state._current_conditions:
                        test = False
                if test:''', '''                if not state._current_conditions.isdisjoint(self.get_task_existence_conditions()[id]):''')],
 'a task that exists under two conditions of which a branch fulfils only one', 'a conditional task appears when any of its conditions holds instead of all', '''
d = Unc({1: {1: {'R': 1}}, 2: {1: {'R': 1}}}, {1: {1: [(1, 1.)]}, 2: {1: [(1, 1.)]}}, {}, {'R': 2},
        conds={1: [DiscreteDistribution([(Cond.A, .5), (Cond.B, .5)])]}, exist={2: [Cond.A, Cond.B]})
s = d.get_next_state_distribution(d.get_initial_state(), start(1)).get_values()[0][0]
for x, p in d.get_next_state_distribution(s, TIME).get_values():
    assert 2 not in x.tasks_remaining
''')
sd('c10-cond-repeat', 'C10', [('scheduling_domains.py', '''                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
                    next_state.tasks_progress).union(next_state.tasks_complete)''', '''                all_considered_tasks = next_state.tasks_remaining.union(next_state.tasks_ongoing).union(
                    next_state.tasks_complete)''')],
 'a stochastic preemptive domain: a task paused while time passes', 'a paused task is made available again as if it had never started: it is both remaining and paused', '''
d = Unc({1: {1: {'R': 1}}, 2: {1: {'R': 1}}}, {1: {1: [(2, .5), (3, .5)]}, 2: {1: [(1, 1.)]}}, {}, {'R': 2}, pre={1})
s = d.get_next_state_distribution(d.get_initial_state(), start(1)).get_values()[0][0]
for a in (TIME, pause(1), TIME):
    s = d.get_next_state_distribution(s, a).get_values()[0][0]
assert s.tasks_paused == {1} and 1 not in s.tasks_remaining
''')
sd('c11-mode-nonren', 'C11', [('resource_renewability.py', '''                if mode_possible is True:
                    break
            if not mode_possible:
                return False''', '''                task_possible = mode_possible
                if mode_possible is True:
                    break
            if not task_possible and len(state.tasks_ongoing) == 0:
                return False''')],
 'a non-renewable budget exhausted while another task is still running', 'the impossibility is only noticed when nothing runs, so states that can no longer be completed are not terminal', '''
d = Det({1: {1: {'N': 2}}, 2: {1: {'N': 2}}}, {1: {1: 3}, 2: {1: 1}}, {}, {'N': 3}, ren={'N': False})
s = run(d, [start(1)])
assert d._is_terminal(s)
''')
sd('c11-anc-paused', 'C11', [('scheduling_domains.py', '''                                    if all(m in state.tasks_complete
                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]

        # possible_task_precedence = [(n, mode)
        #                             for n in state.tasks_remaining''', '''                                    if not any(m in state.tasks_remaining or m in state.tasks_ongoing
                                               for m in self.ancestors[n])]

        # possible_task_precedence = [(n, mode)
        #                             for n in state.tasks_remaining''')],
 'a preemptive predecessor that is paused', 'successors of a paused task are offered although their predecessor is not complete', '''
d = Det({1: {1: {'R': 1}}, 2: {1: {'R': 1}}}, {1: {1: 2}, 2: {1: 1}}, {1: [2]}, {'R': 2}, pre={1})
s = run(d, [start(1), TIME, pause(1)])
assert 2 not in [a.task for a in d.get_applicable_actions(s).get_elements()]
''')
sd('c11-goal-paused', 'C11', [('scheduling_domains.py', '''                             (len(state.tasks_remaining) == 0
                              and (len(state.tasks_ongoing) == 0)
                              and (len(state.tasks_paused) == 0)))''', '''                             (len(state.tasks_remaining) == 0
                              and (len(state.tasks_ongoing) == 0)
                              and (len(state.tasks_complete) > 0)))''')],
 'a state where the only unfinished tasks are paused', 'a project whose last tasks are paused is reported as a goal', '''
d = Det({1: {1: {'R': 1}}, 2: {1: {'R': 1}}}, {1: {1: 2}, 2: {1: 1}}, {1: [2]}, {'R': 2}, pre={2})
s = run(d, [start(1), TIME, TIME, start(2), pause(2)])
assert not d.is_goal(s)
assert d.is_goal(run(d, [resume(2), TIME], s))
''')
