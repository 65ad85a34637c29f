from plant import plant
R='skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py'
U='skdecide/builders/discrete_optimization/rcpsp/rcpsp_utils.py'
P='''import io, contextlib, random
import numpy as np
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def md(*t): # (duration, need) per task, several modes as a list
    d = {1: {1: dict(duration=0, R=0)}}
    for k, m in enumerate(t):
        d[k + 2] = {i + 1: dict(duration=a, R=b) for i, (a, b) in enumerate(m if isinstance(m, list) else [m])}
    d[len(t) + 2] = {1: dict(duration=0, R=0)}
    return d
def succ(n, **e):
    d = {1: list(range(2, n + 3)), n + 2: []}
    for k in range(2, n + 2): d[k] = list(e.get('t%d' % k, [])) + [n + 2]
    return d
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C15', edits, needs, breaks, P + demo)
s('c15-last-predecessor', [(R, '''                for s in self.problem.successors[act_id]:  # 19
                    minimum_starting_time[s] = max(minimum_starting_time[s], activity_end_times[act_id])  # 20

        # print('activity_end_times: ', activity_end_times)
        self.rcpsp_schedule = {}
        for act_id in activity_end_times:
            self.rcpsp_schedule[act_id] = {}
            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']
            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
        if unfeasible''', '''                for s in self.problem.successors[act_id]:  # 19
                    minimum_starting_time[s] = max(current_min_time, activity_end_times[act_id])  # 20

        # print('activity_end_times: ', activity_end_times)
        self.rcpsp_schedule = {}
        for act_id in activity_end_times:
            self.rcpsp_schedule[act_id] = {}
            self.rcpsp_schedule[act_id]['start_time'] = activity_end_times[act_id] - self.problem.mode_details[act_id][modes_extended[act_id-1]]['duration']
            self.rcpsp_schedule[act_id]['end_time'] = activity_end_times[act_id]
        if unfeasible''')],
 'a task with two predecessors of which the one scheduled last ends first', 'the task starts before one of its predecessors has ended', '''
pb = SingleModeRCPSPModel({'R': 2}, [], md((5, 1), (1, 1), (1, 1)), succ(3, t2=[4], t3=[4]), 30)
s = quiet(RCPSPSolution, pb, rcpsp_permutation=[0, 1, 2])
assert s.rcpsp_schedule[4]['start_time'] == 5, s.rcpsp_schedule
assert quiet(pb.satisfy, s)
''')
s('c15-calendar-consumed', [(R, '''            if  isinstance(self.problem, RCPSPModelCalendar):
                resource_avail_in_time[res] = self.problem.resources[res][:new_horizon+1]
            else:
                resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
        # 3
        minimum_starting_time = {}
        for act in list(self.problem.successors.keys()):
            minimum_starting_time[act] = 0
''', '''            if isinstance(self.problem, RCPSPModelCalendar):
                avail = self.problem.resources[res]
                resource_avail_in_time[res] = avail if len(avail) <= new_horizon+1 else avail[:new_horizon+1]
            else:
                resource_avail_in_time[res] = np.full(new_horizon, self.problem.resources[res], dtype=int).tolist()
        # 3
        minimum_starting_time = {}
        for act in list(self.problem.successors.keys()):
            minimum_starting_time[act] = 0
''')],
 'a calendar exactly as long as the horizon and a second schedule on the same problem', 'a schedule consumes the calendar of the problem itself', '''
pb = RCPSPModelCalendar({'R': [2] * 11}, [], md((5, 2), (1, 1)), succ(2), 10)
a = quiet(RCPSPSolution, pb, rcpsp_permutation=[0, 1], rcpsp_modes=[1, 1]).rcpsp_schedule
b = quiet(RCPSPSolution, pb, rcpsp_permutation=[0, 1], rcpsp_modes=[1, 1]).rcpsp_schedule
assert a == b and pb.resources['R'] == [2] * 11
''')
s('c15-calendar-peak', [(R, '''                    if resource_usage[res] > self.resources[res][t]:
''', '''                    if resource_usage[res] > max(self.resources[res][t:t + 2]):
''')],
 'a given schedule that exceeds the calendar just before the capacity goes up', 'a schedule above the capacity is judged feasible', '''
pb = RCPSPModelCalendar({'R': [0, 0, 0] + [2] * 20}, [], md((2, 2)), succ(1), 20)
for t in (0, 1, 2, 3):
    sc = {1: dict(start_time=0, end_time=0), 2: dict(start_time=t, end_time=t + 2), 3: dict(start_time=t + 2, end_time=t + 2)}
    s = quiet(RCPSPSolution, pb, rcpsp_permutation=[0], rcpsp_schedule=sc, rcpsp_modes=[1])
    assert quiet(pb.satisfy, s) == (t == 3), t
''')
s('c15-robust-same-problem', [(R, '''            var.problem = self.list_problem[i]
            fit = self.list''', '''            fit = self.list''')],
 'scenarios with different durations', 'every scenario is evaluated with the data of one of them', '''
a = SingleModeRCPSPModel({'R': 2}, [], md((5, 1)), succ(1), 30)
b = SingleModeRCPSPModel({'R': 2}, [], md((3, 1)), succ(1), 30)
ag = Aggreg_RCPSPModel([a, b], MethodAggregating(BaseMethodAggregating.MEAN))
s = quiet(RCPSPSolution, a, rcpsp_permutation=[0])
assert quiet(ag.evaluate, s)['makespan'] == 4
''')
s('c15-law-capacity', [(R, '''                    max_rc = min(resource_consumption+range_around_mean,
                                 limit_resource[resource])''', '''                    max_rc = min(resource_consumption+range_around_mean,
                                 max(limit_resource.values()))''')],
 'resources of different capacities', 'an uncertain need goes above the capacity of its resource', '''
m = {1: {1: dict(duration=0, A=0, B=0)}, 2: {1: dict(duration=2, A=1, B=1)}, 3: {1: dict(duration=0, A=0, B=0)}}
pb = SingleModeRCPSPModel({'A': 1, 'B': 5}, [], m, {1: [2, 3], 2: [3], 3: []}, 30)
w = UncertainRCPSPModel(pb, create_poisson_laws(pb)).create_rcpsp_model(MethodRobustification(MethodBaseRobustification.WORST_CASE))
assert w.mode_details[2][1]['A'] <= 1
''')
s('c15-order-by-end', [(R, '''key=lambda x: self.rcpsp_schedule[x]["start_time"])]''', '''key=lambda x: self.rcpsp_schedule[x]["start_time"] + (self.rcpsp_schedule[x]["end_time"] > 5))]''')],
 'tasks that start next to each other around a long one', 'the permutation read from a schedule is not ordered by start date', '''
pb = SingleModeRCPSPModel({'R': 4}, [], md((9, 1), (1, 1), (1, 1)), succ(3, t3=[4]), 30)
sc = {1: dict(start_time=0, end_time=0), 2: dict(start_time=1, end_time=10), 3: dict(start_time=0, end_time=1), 4: dict(start_time=2, end_time=3), 5: dict(start_time=10, end_time=10)}
sc = {k: sc[k] for k in (1, 3, 4, 2, 5)}
s = quiet(RCPSPSolution, pb, rcpsp_schedule=sc, rcpsp_modes=[1, 1, 1])
assert s.rcpsp_permutation == [1, 0, 2], s.rcpsp_permutation
''')
s('c15-unit-shared', [(U, "array_ressource_usage[r][\"total_activity\"][resource] += (end_time-start_time)", "array_ressource_usage[r][\"total_activity\"][resource] += max(end_time-start_time, 2)")],
 'tasks of one time unit', 'the workload of a resource unit is overstated', '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_utils import *
pb = SingleModeRCPSPModel({'R': 1}, [], md((1, 1), (1, 1)), succ(2), 30)
s = quiet(RCPSPSolution, pb, rcpsp_permutation=[0, 1])
u = quiet(compute_schedule_per_resource_individual, pb, s)
assert u['R']['total_activity'][0] == 2
''')
s('c15-mode-one-reserve', [(R, '''                start_time = self.rcpsp_schedule[act_id]['start_time']
                end_time = self.rcpsp_schedule[act_id]['end_time']
                mode = self.rcpsp_modes[act_id-2]
''', '''                start_time = self.rcpsp_schedule[act_id]['start_time']
                end_time = self.rcpsp_schedule[act_id]['end_time']
                mode = self.rcpsp_modes[act_id-2] if end_time < makespan else 1
''')],
 'a last task in another mode than the first', 'the reserve objective counts the wrong needs', '''
pb = MultiModeRCPSPModel({'R': 4}, [], md([(2, 1), (2, 3)]), succ(1), 30)
s = quiet(RCPSPSolution, pb, rcpsp_permutation=[0], rcpsp_modes=[2])
assert pb.evaluate(s)['mean_resource_reserve'] == .25
''')
