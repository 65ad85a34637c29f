from plant import plant
B='skdecide/hub/solver/do_solver/sk_to_do_binding.py'; S='skdecide/hub/domain/rcpsp/rcpsp_sk.py'
P='''import io, contextlib, random
from skdecide.hub.domain.rcpsp import rcpsp_sk as R
from skdecide.hub.solver.do_solver.sk_to_do_binding import *
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
H = 20
TM = {1: {1: dict(duration=0, R=0)}, 2: {1: dict(duration=2, R=1, S=1)}, 3: {1: dict(duration=3, R=2), 2: dict(duration=12, R=1)}, 4: {1: dict(duration=0, R=0)}}
KW = dict(task_ids=[1, 2, 3, 4], tasks_mode=TM, successors={1: [2, 3, 4], 2: [4], 3: [4], 4: []}, max_horizon=H)
def ms(un, cal, skills, cls=R.MSRCPSPCalendar):
    return cls(skills_names=['S'], resource_unit_names=un, resource_type_names=['R'], resource_skills=dict({'R': {}}, **skills),
               resource_availability=dict({'R': [2] * (H + 1)}, **cal), resource_renewable=dict({'R': True}, **{u: True for u in un}), **KW)
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C20', edits, needs, breaks, P + demo)
s('c20-unit-order', [(B, "zip(sorted_employees, range(len(sorted_employees)))", "zip(employees, range(len(sorted_employees)))")],
 'a multi-skill domain that lists its employees in another order than that of their names', 'the problem numbers the employees otherwise than the solutions made from executions', '''
d = ms(['b', 'a'], {'a': [1] * (H + 1), 'b': [1] * (H + 1)}, {'a': {}, 'b': {'S': 1}})
s = d.get_initial_state()
random.seed(0)
while s.tasks_remaining or s.tasks_ongoing:
    a = d.get_applicable_actions(s).sample()
    while a.time_progress and not s.tasks_ongoing: a = d.get_applicable_actions(s).sample()
    s = d.get_next_state(s, a)
x = quiet(from_last_state_to_solution, s, d)
assert quiet(x.problem.satisfy, x)
''')
s('c20-first-capacity', [(B, "max(rcpsp_do_domain.resources[r])", "rcpsp_do_domain.resources[r][0]")],
 'a calendar problem whose resource is scarcer at the beginning, turned into a domain without calendars', 'the domain offers less than the greatest availability', '''
m = quiet(build_do_domain, R.MRCPSPCalendar(resource_names=['R'], resource_availability={'R': [1] * 5 + [3] * (H - 4)}, resource_renewable={'R': True}, **KW))
assert build_sk_domain(m, False).get_quantity_resource('R', time=0) == 3
''')
s('c20-zero-noise', [(S, "(max(1, duration+i), 1/(2*n+1))", "(max(0, duration+i), 1/(2*n+1))")],
 'a task shorter than the noise', 'an uncertain task may take no time', '''
d = R.build_stochastic_from_deterministic(R.MRCPSP(resource_names=['R'], resource_availability={'R': 2}, resource_renewable={'R': True}, **KW))
assert min(v for v, p in d.get_task_duration_distribution(2, 1).get_values()) == 1
''')
s('c20-mode-one', [(S, "duration = srcpsp.sample_task_duration(task=t, mode=m)", "duration = srcpsp.sample_task_duration(task=t)")],
 'a task with several modes of different durations', 'the settled instances give every mode a duration of the first mode', '''
d = R.build_stochastic_from_deterministic(R.MRCPSP(resource_names=['R'], resource_availability={'R': 2}, resource_renewable={'R': True}, **KW), set())
q = R.build_n_determinist_from_stochastic(d, 1)[0]
assert q.get_task_duration(3, 2) == 12
''')
s('c20-ms-renewable', [(B, '''                                     non_renewable_resources=set([r
                                                                  for r in scheduling_domain.get_resource_renewability()
                                                                  if not scheduling_domain.get_resource_renewability()[r]]),''',
'''                                     non_renewable_resources=set([r
                                                                  for r in scheduling_domain.get_resource_units_names()
                                                                  if not scheduling_domain.get_resource_renewability()[r]]),''')],
 'a multi-skill domain with a non-renewable resource', 'the problem takes the resource for a renewable one', '''
d = ms(['a'], {'a': [1] * (H + 1)}, {'a': {'S': 1}}); d.resource_renewable['R'] = False
assert list(quiet(build_do_domain, d).non_renewable_resources) == ['R']
''')
s('c20-mode-order', [(B, "modes = [state.tasks_mode.get(j, 1) for j in sorted(domain.get_tasks_ids()) ]", "modes = list(state.tasks_mode.values())")],
 'tasks with several modes started in another order than their numbers', 'the solution swaps the modes of the tasks', '''
d = R.MRCPSP(resource_names=['R'], resource_availability={'R': 2}, resource_renewable={'R': True}, **KW)
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction as A, SchedulingActionEnum as E
s = d.get_initial_state()
go = lambda s, k, m: d.get_next_state(s, A(k, E.START, m, False))
def wait(s):
    while s.tasks_ongoing: s = d.get_next_state(s, A(None, E.TIME_PR, None, True))
    return s
s = go(s, 1, 1)
s = wait(d.get_next_state(s, A(None, E.TIME_PR, None, True)))
s = wait(go(s, 3, 2)); s = wait(go(s, 2, 1)); s = go(s, 4, 1)
x = quiet(from_last_state_to_solution, s, d)
assert x.rcpsp_modes == [1, 2], x.rcpsp_modes
''')
s('c20-unit-calendar', [(B, '''                                                            for t in range(horizon+1)])

''', '''                                                            for t in [max(0, h - 1) for h in range(horizon + 1)]])

''')], 'an employee whose presence changes over time', 'employees come and leave one date late in the problem', '''
d = ms(['a'], {'a': [0, 1] * 10 + [0]}, {'a': {'S': 1}})
assert quiet(build_do_domain, d).employees[0].calendar_employee == [False, True] * 10 + [False]
''')
