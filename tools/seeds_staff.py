from plant import plant
M='skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py'
S='skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/lns_post_process_rcpsp.py'
P='''import io, contextlib
from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill import *
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
H = 30
def emp(cal=None, **sk): return Employee({s: SkillDetail(v, 0, 0) for s, v in sk.items()}, cal or [True] * (H + 1))
def model(tasks, emps, succ=None, cap=None, nr=(), cls=MS_RCPSPModel_Variant, **kw):
    res = {'R': cap or [2] * (H + 1)}
    md = {1: {1: dict(duration=0, R=0)}, len(tasks) + 2: {1: dict(duration=0, R=0)}}
    for k, t in enumerate(tasks): md[k + 2] = {1: t}
    n = len(tasks)
    sc = {1: list(range(2, n + 3)), n + 2: []}
    for k in range(2, n + 2): sc[k] = list((succ or {}).get(k, [])) + [n + 2]
    return cls(skills_set={'S', 'T'}, resources_set={'R'}, non_renewable_resources=set(nr), resources_availability=res, employees=emps,
               employees_availability=[len(emps)] * (H + 1), mode_details=md, successors=sc, horizon=H, **kw)
def sol(m, perm, prio): return quiet(MS_RCPSPSolution_Variant, problem=m, priority_list_task=perm, modes_vector=[1] * len(perm), priority_worker_per_task=prio)
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C16', edits, needs, breaks, P + demo)
s('c16-busy-contributors', [(M, '''                                employee_usage[act_id][w].add(s)
                        for t in range(current_min_time,
                                       current_min_time
                                       + problem.mode_details[act_id][modes_extended[act_id - 1]]['duration']):
                            worker_avail_in_time[w][t] = False
''', '''                                employee_usage[act_id][w].add(s)
                        for t in range(current_min_time,
                                       activity_end_times.get(act_id, current_min_time + 1)):
                            worker_avail_in_time[w][t] = False
''')], 'a task of several time units and a second one that wants the same employee', 'an employee is only busy during the first time unit of its task', '''
m = model([dict(duration=3, R=0, S=1), dict(duration=2, R=0, S=1)], {1: emp(S=1)})
x = sol(m, [0, 1], [[1], [1]])
assert x.schedule[3]['start_time'] == 3, x.schedule
assert quiet(m.satisfy, x)
''')
s('c16-calendar-alias', [(M, '''        worker_avail_in_time[i] = list(problem.employees[i].calendar_employee)

    # 3''', '''        worker_avail_in_time[i] = problem.employees[i].calendar_employee

    # 3''')], 'two solutions built one after the other from the same problem', 'the calendars of the employees are consumed by the first solution', '''
m = model([dict(duration=3, R=0, S=1)], {1: emp(S=1)})
a = sol(m, [0], [[1]]); b = sol(m, [0], [[1]])
assert a.schedule[2]['start_time'] == 0 and b.schedule[2]['start_time'] == 0, b.schedule
''')
s('c16-overlap-touch', [(M, '''    if (i2[0] >= i1[1]
''', '''    if (i2[0] > i1[1]
''')],
 'an employee whose second task (of greater number) starts when the first one ends', 'the check refuses a workable plan', '''
m = model([dict(duration=3, R=0, S=1), dict(duration=2, R=0, S=1)], {1: emp(S=1)})
x = sol(m, [0, 1], [[1], [1]])
assert quiet(m.satisfy, x)
''')
s('c16-sat-last-unit', [(M, '''                                   for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                  rcpsp_sol.schedule[task]["end_time"])):
                            print("Task : ", task)''', '''                                   for t in (rcpsp_sol.schedule[task]["start_time"],
                                             rcpsp_sol.schedule[task]["end_time"] - 1)):
                            print("Task : ", task)''')],
 'an employee absent in the middle of a task', 'the check accepts a plan whose employee is away in the middle of the task', '''
gap = [t != 1 for t in range(H + 1)]
m = model([dict(duration=3, R=0, S=1)], {1: emp(gap, S=1)})
z = lambda a, b: dict(start_time=a, end_time=b)
x = MS_RCPSPSolution(m, {1: 1, 2: 1, 3: 1}, {1: z(0, 0), 2: z(0, 3), 3: z(3, 3)}, {2: {1: {'S'}}})
assert not quiet(m.satisfy, x)
x = MS_RCPSPSolution(m, {1: 1, 2: 1, 3: 1}, {1: z(0, 0), 2: z(2, 5), 3: z(5, 5)}, {2: {1: {'S'}}})
assert quiet(m.satisfy, x)
''')
s('c16-window-state', [(M, '''                   worker_ids = [worker for worker in worker_avail_in_time
                                 if all(worker_avail_in_time[worker][t] for t in range_time)]''',
'''                   worker_ids = [worker for worker in worker_avail_in_time
                                 if all(worker_avail_in_time[worker][t] for t in range_time[::max(1, len(range_time) - 1)])]''')],
 'an absence strictly inside the time window of a task', 'a task is given to an employee who is away in the middle of it', '''
gap = [t != 1 for t in range(H + 1)]
m = model([dict(duration=3, R=0, S=1)], {1: emp(gap, S=1)})
x = sol(m, [0], [[1]])
assert x.schedule[2]['start_time'] == 2, x.schedule
''')
s('c16-variant-modes', [(M, '''                                                      in sorted(s.problem.tasks)[1:-1]])''', '''                                                      in sorted(s.schedule, key=lambda x: s.schedule[x]["start_time"])[1:-1]])''')],
 'a multi-mode plan whose tasks do not start in the order of their numbers', 'the modes of the converted plan belong to other tasks', '''
m = model([dict(duration=2, R=0), dict(duration=1, R=0)], {1: emp(S=1)}, succ={3: [2]})
m.mode_details[2][2] = dict(duration=4, R=0)
x = quiet(MS_RCPSPSolution_Variant, problem=m, priority_list_task=[0, 1], modes_vector=[2, 1], priority_worker_per_task=[[1], [1]])
v = schedule_solution_to_variant(x)
assert v.modes_vector == [2, 1], v.modes_vector
''')
s('c16-shift-skip-zero', [(S, '''        times_predecessors = [new_proposed_schedule[t]["end_time"]
                              if t in new_proposed_schedule
                              else solution.schedule[t]["end_time"]
                              for t in predecessors_dict[task]]''', '''        times_predecessors = [new_proposed_schedule[t]["end_time"]
                              for t in predecessors_dict[task]
                              if t in new_proposed_schedule]''')],
 'a predecessor without duration, of greater number, at the start of the task', 'a task is shifted before a predecessor that is not shifted yet', '''
from skdecide.builders.discrete_optimization.rcpsp_multiskill.solvers.lns_post_process_rcpsp import sgs_variant
m = model([dict(duration=2, R=0, S=1), dict(duration=0, R=0), dict(duration=2, R=0, S=1)], {1: emp(S=1), 2: emp(S=1)}, succ={4: [3], 3: [2]})
z = lambda a, b: dict(start_time=a, end_time=b)
x = MS_RCPSPSolution(m, {k: 1 for k in range(1, 6)}, {1: z(0, 0), 2: z(4, 6), 3: z(4, 4), 4: z(2, 4), 5: z(6, 6)}, {2: {1: {'S'}}, 4: {2: {'S'}}})
assert quiet(m.satisfy, x)
y = sgs_variant(x, m, {1: [], 2: [1, 3], 3: [1, 4], 4: [1], 5: [1, 2, 3, 4]})
assert quiet(m.satisfy, y), y.schedule
''')
s('c16-pooled-present', [(M, '''                if self.employees[emp].calendar_employee[min(j,
                                                             len(self.employees[emp].calendar_employee)-1)]:
''', '''                if self.employees[emp].calendar_employee[min(j + (len(self.resources_list) == 0),
                                                             len(self.employees[emp].calendar_employee)-1)]:
''')], 'a problem without resources whose employees come and go', 'the pooled skills are those of the next date', '''
m = model([dict(duration=2, S=1)], {1: emp([t != 4 for t in range(H + 1)], S=1)})
m = MS_RCPSPModel_Variant(skills_set={'S', 'T'}, resources_set=set(), non_renewable_resources=set(), resources_availability={}, employees=m.employees, employees_availability=[1] * (H + 1),
    mode_details={1: {1: dict(duration=0)}, 2: {1: dict(duration=2, S=1)}, 3: {1: dict(duration=0)}}, successors={1: [2, 3], 2: [3], 3: []}, horizon=H)
p = m.build_multimode_rcpsp_calendar_representative()
assert [p.resources['S'][t] for t in range(3, 6)] == [1, 0, 1], p.resources['S'][:7]
''')
s('c16-team-early-stop', [(M, '''                    if all(current_skills[s] >= required_skills[s] for s in required_skills):
                        break''', '''                    if sum(min(current_skills[s], required_skills[s] + 1) for s in required_skills) >= sum(required_skills.values()):
                        break''')] , 'a task requiring two skills with an employee who has more than needed of one', 'the team of a task lacks a skill', '''
m = model([dict(duration=2, R=0, S=1, T=1)], {1: emp(S=2), 2: emp(T=1)})
x = sol(m, [0], [[1, 2]])
assert x.employee_usage[2] == {1: {'S'}, 2: {'T'}}, x.employee_usage
assert quiet(m.satisfy, x)
''')
