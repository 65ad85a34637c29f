from plant import plant
import os, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S='skdecide/hub/solver/'
F=S+'sgs_policies/sgs_policies.py'
H='''
import contextlib, io
from skdecide import *
from skdecide.hub.domain.rcpsp.rcpsp_sk import MRCPSP, RCPSP
from skdecide.hub.solver.sgs_policies.sgs_policies import PolicyRCPSP, PolicyMethodParams, BasePolicyMethod as B
from skdecide.hub.solver.pile_policy.pile_policy import PilePolicy, GreedyChoice
from skdecide.hub.solver.meta_policy.meta_policies import MetaPolicy
from skdecide import rollout_episode
def dom(modes, succ, cap, hor=40):
    n = len(modes)
    return MRCPSP(resource_names=list(cap), task_ids=list(modes), tasks_mode=modes, successors={t: succ.get(t, []) for t in modes},
                  max_horizon=hor, resource_availability=cap, resource_renewable={r: True for r in cap})
def one(d, **need): return {1: dict(need, duration=d)}
def run(d, pol, n=60):
    s = d.reset(); out = []
    for i in range(n):
        if d.is_terminal(s): break
        a = pol.get_next_action(s); out.append((s.t, a.task, a.mode, a.time_progress)); s = d.step(a).observation
    return s, out
def starts(s): return {t: s.tasks_details[t].start for t in s.tasks_details}
def sgs(d, m, perm, plan=None, modes=None, dt=0, di=0):
    kw = {} if plan is None else dict(schedule={t: dict(start_time=x, end_time=x) for t, x in plan.items()})
    return PolicyRCPSP(domain=d, policy_method_params=PolicyMethodParams(m, dt, di), permutation_task=perm, modes_dictionnary=modes or {t: 1 for t in perm}, **kw)
'''
FORK='''
d = dom({1: one(0, R=0), 2: one(2, R=2), 3: one(3, R=1), 4: one(1, R=1), 5: one(0, R=0)}, {1: [2, 3, 4], 2: [5], 3: [5], 4: [5]}, {'R': 2})
'''
plant('c21-strict-earlier','C21',[(F,'''other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done
                                     if policy_rcpsp.schedule[task_id]["start_time"] == scheduled_time]''','''other_tasks_same_time = [task_id for ind, task_id in sorted_task_not_done
                                     if policy_rcpsp.schedule[task_id]["start_time"] <= scheduled_time]''')],
 'a strict policy with a plan whose permutation puts a task first that cannot start yet, while another is planned earlier',
 'the strict rule also starts tasks planned before the first ready one',
 H+FORK+'''
s, log = run(d, sgs(d, B.SGS_STRICT, [1, 3, 2, 4, 5], {1: 0, 3: 0, 2: 4, 4: 3, 5: 9}))
st = starts(s)
assert st[2] == 3 and st[4] == 5, st
''')
plant('c21-time-window','C21',[(F,'''if scheduled_time <= policy_rcpsp.schedule[task_id]["start_time"]
                                     <= scheduled_time + delta_time_freedom]''','''if policy_rcpsp.schedule[task_id]["start_time"] - scheduled_time
                                     <= delta_time_freedom]''')],
 'a permutation that does not follow the plan, and its first ready task blocked by resources',
 'tasks planned before the first ready one are started in its place',
 H+FORK+'''
s, log = run(d, sgs(d, B.SGS_TIME_FREEDOM, [1, 3, 2, 4, 5], {1: 0, 3: 0, 2: 4, 4: 2, 5: 9}, dt=1))
st = starts(s)
assert st[2] == 3 and st[4] == 5, st
''')
plant('c21-index-rank','C21',[(F,'''if ind <= index_t + delta_index_freedom]''','''if sorted_task_not_done.index((ind, task_id)) <= delta_index_freedom]''')],
 'tasks of the permutation between the first ready one and the next ready one, which are not ready or already done',
 'the freedom is counted among the ready tasks instead of in the permutation: tasks further away are started',
 H+'''
d = dom({1: one(0, R=0), 2: one(2, R=2), 3: one(3, R=1), 4: one(1, R=1), 5: one(1, R=0), 6: one(0, R=0)}, {1: [2, 3, 4], 2: [5, 6], 3: [6], 4: [6], 5: [6]}, {'R': 2})
s, log = run(d, sgs(d, B.SGS_INDEX_FREEDOM, [1, 3, 2, 5, 4, 6], di=1))
st = starts(s)
assert st[2] == 3 and st[4] == 5, st
''')
plant('c21-gantt-one-per-date','C21',[(F,'''                if start_date not in self.store_start_date:
                    self.store_start_date[start_date] = set()
                self.store_start_date[start_date].add(task_id)''','''                self.store_start_date.setdefault(start_date, {task_id})''')],
 'two tasks planned for the same date',
 'only the first of them is started: the others never are',
 H+'''
d = dom({1: one(0, R=0), 2: one(2, R=1), 3: one(3, R=1), 4: one(0, R=0)}, {1: [2, 3], 2: [4], 3: [4]}, {'R': 2})
s, log = run(d, sgs(d, B.FOLLOW_GANTT, [1, 2, 3, 4], {1: 0, 2: 1, 3: 1, 4: 4}))
assert starts(s) == {1: 0, 2: 1, 3: 1, 4: 4}, starts(s)
''')
plant('c21-mode-of-first','C21',[(F,'''        for tinterest in tasks_of_interest:
            the_action = SchedulingAction(task=tinterest,
                                          action=SchedulingActionEnum.START,
                                          mode=policy_rcpsp.modes_dictionnary[tinterest],''','''        mode = policy_rcpsp.modes_dictionnary[next_task_to_launch]
        for tinterest in tasks_of_interest:
            the_action = SchedulingAction(task=tinterest,
                                          action=SchedulingActionEnum.START,
                                          mode=mode if mode in policy_rcpsp.domain.get_task_modes(tinterest) else policy_rcpsp.modes_dictionnary[tinterest],''')],
 'two tasks planned together with different modes, the first blocked by resources',
 'the second is started in the mode of the first',
 H+'''
d = dom({1: one(0, R=0), 2: {1: dict(R=2, duration=2), 2: dict(R=2, duration=1)}, 3: one(3, R=1), 4: {1: dict(R=1, duration=1), 2: dict(R=1, duration=2)}, 5: one(0, R=0)},
        {1: [2, 3, 4], 2: [5], 3: [5], 4: [5]}, {'R': 2})
s, log = run(d, sgs(d, B.SGS_PRECEDENCE, [1, 3, 2, 4, 5], {1: 0, 3: 0, 2: 1, 4: 1, 5: 5}, modes={1: 1, 2: 2, 3: 1, 4: 1, 5: 1}))
assert (0, 4, 1, False) in log, log
''')
plant('c21-same-time-precedence','C21',[(F,'''                                     and policy_rcpsp.schedule[task_id]["start_time"] == original_time_start_task
                                     and task_id in possible_task_to_launch]''','''                                     and policy_rcpsp.schedule[task_id]["start_time"] == original_time_start_task]''')],
 'a task and its successor planned for the same date, the first task blocked',
 'the successor is started before its predecessor is complete',
 H+'''
d = dom({1: one(0, R=0), 2: one(3, R=1), 3: one(2, R=2), 4: one(1, R=1), 5: one(0, R=0)}, {1: [2, 3], 3: [4], 2: [5], 4: [5]}, {'R': 2})
s, log = run(d, sgs(d, B.SGS_PRECEDENCE, [1, 2, 3, 4, 5], {1: 0, 2: 0, 3: 3, 4: 3, 5: 6}))
st = starts(s)
assert st[4] is not None and st[4] >= st[3] + 2, st
''')
plant('c21-pile-direct','C21',[(S+'pile_policy/pile_policy.py','''self.successors = {n: list(nx.algorithms.descendants(self.nx_graph, n))''','''self.successors = {n: list(self.nx_graph.successors(n))''')],
 'a task with few direct successors and many indirect ones competing with a task with more direct ones',
 'the greedy choice counts direct successors instead of all of them',
 H+'''
d = dom({1: one(0, R=0), 2: one(1, R=2), 3: one(1, R=2), 4: one(1, R=0), 5: one(1, R=0), 6: one(1, R=0), 7: one(0, R=0)},
        {1: [2, 3], 2: [6, 7], 3: [4], 4: [5], 5: [7], 6: [7]}, {'R': 2})
p = PilePolicy(GreedyChoice.MOST_SUCCESSORS); p.solve(lambda: d)
s, log = run(d, p)
st = starts(s)
assert st[3] == 0 and st[2] == 1, st
''')
META='''
def two(x):
    return dom({1: one(0, R=0), 2: one(x, R=2), 3: one(3, R=1), 4: one(4, R=1), 5: one(4, R=1), 6: one(0, R=0)}, {1: [2, 3, 4], 2: [5], 3: [6], 4: [6], 5: [6]}, {'R': 2})
ex, known = two(1), two(1)
a = sgs(ex, B.SGS_READY, [1, 2, 3, 4, 5, 6]); b = sgs(ex, B.SGS_STRICT, [1, 3, 2, 5, 4, 6])
def length(dm, p): return run(dm, p)[0].t
'''
plant('c21-meta-decisions','C21',[(S+'meta_policy/meta_policies.py','''results[method] += states[-1].t-observation.t # TODO, this is a trick...''','''results[method] += len(states)''')],
 'policies whose projects have as many decisions as dates differ: one longer in time but with fewer steps of waiting',
 'the meta policy counts the decisions of a rollout instead of its duration',
 H+'''
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingAction, SchedulingActionEnum as E
''' + FORK + '''
known = dom({1: one(0, R=0), 2: one(2, R=2), 3: one(3, R=1), 4: one(1, R=1), 5: one(0, R=0)}, {1: [2, 3, 4], 2: [5], 3: [5], 4: [5]}, {'R': 2})
class Short(PolicyRCPSP):
    def _get_next_action(self, o):
        return SchedulingAction(task=None, action=E.TIME_PR, mode=None, time_progress=True)
class Start(PolicyRCPSP):
    """Starts a task and lets time pass in one decision."""
    def _get_next_action(self, o):
        a = super()._get_next_action(o)
        return SchedulingAction(task=a.task, action=a.action, mode=a.mode, time_progress=True)
par = dict(permutation_task=[1, 2, 3, 4, 5], modes_dictionnary={t: 1 for t in range(1, 6)})
slow = Start(domain=d, policy_method_params=PolicyMethodParams(B.SGS_READY), **par)
fast = sgs(d, B.SGS_READY, [1, 2, 3, 4, 5])
s0 = d.reset()
ls, lf = run(d, slow)[0].t, run(d, fast)[0].t
ns, nf = len(run(d, slow)[1]), len(run(d, fast)[1])
assert lf < ls and ns < nf, (lf, ls, ns, nf)
mp = MetaPolicy({'slow': slow, 'fast': fast}, d, known, verbose=False)
with contextlib.redirect_stdout(io.StringIO()): a = mp.get_next_action(d.reset())
assert not a.time_progress, a
''')
plant('c21-meta-exec','C21',[(S+'meta_policy/meta_policies.py','''domain=self.known_domain,
                                                              solver''','''domain=self.execution_domain,
                                                              solver''')],
 'a known domain whose durations differ from those of the executed one',
 'the meta policy plays its rollouts on the domain it is executed in',
 H+'''
def pr(x, y):
    """One machine for the long task first or after the two short ones."""
    return dom({1: one(0, R=0), 2: one(x, R=2), 3: one(y, R=2), 4: one(5, R=0), 5: one(5, R=0), 6: one(0, R=0)}, {1: [2, 3], 2: [4], 3: [5], 4: [6], 5: [6]}, {'R': 2})
perms = {'a': [1, 2, 3, 4, 5, 6], 'b': [1, 3, 2, 4, 5, 6]}
for q, w in (((4, 1), (1, 4)), ((1, 4), (4, 1))):
    def jobs(x, y, tail):
        return dom({1: one(0, R=0), 2: one(x, R=2), 3: one(y, R=2), 4: one(tail[0], R=0), 5: one(tail[1], R=0), 6: one(0, R=0)}, {1: [2, 3], 2: [4], 3: [5], 4: [6], 5: [6]}, {'R': 2})
    ex, known = jobs(1, 1, q), jobs(1, 1, w)
    T = {k: run(known, sgs(known, B.SGS_STRICT, p))[0].t for k, p in perms.items()}
    best = {p[1] for k, p in perms.items() if T[k] == min(T.values())}
    assert len(best) == 1, T
    mp = MetaPolicy({k: sgs(ex, B.SGS_STRICT, p) for k, p in perms.items()}, ex, known, verbose=False)
    s = ex.reset()
    s = ex.step(mp.policies['a'].get_next_action(s)).observation
    with contextlib.redirect_stdout(io.StringIO()): a = mp.get_next_action(s)
    assert a.task in best, (T, a)
''')
plant('c21-plan-order','C21',[(S+'do_solver/do_solver_scheduling.py','''key=lambda x: (solution.rcpsp_schedule[x]["start_time"], x))''','''key=lambda x: (solution.rcpsp_schedule[x]["end_time"], x))''')],
 'a solution in which a task that starts later ends earlier, carried out by an order-based rule',
 'the policy made of a solution takes the tasks in the order of their ends',
 '''
import stubs; stubs.install()
''' + H + '''
with contextlib.redirect_stdout(io.StringIO()):
    from skdecide.hub.solver.do_solver.do_solver_scheduling import from_solution_to_policy
    from skdecide.hub.solver.do_solver.sk_to_do_binding import build_do_domain
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPSolution
    d = dom({1: one(0, R=0), 2: one(4, R=1), 3: one(1, R=1), 4: one(1, R=1), 5: one(0, R=0)}, {1: [2, 3], 3: [4], 2: [5], 4: [5]}, {'R': 2})
    m = build_do_domain(d)
    sol = RCPSPSolution(problem=m, rcpsp_permutation=[0, 1, 2], rcpsp_modes=[1, 1, 1])
    pol = from_solution_to_policy(sol, d, PolicyMethodParams(B.SGS_READY))
    s = d.reset()
    s = d.step(pol.get_next_action(s)).observation
    a = pol.get_next_action(s)
assert a.task == 2, a
''')
shutil.copy(V+'/drivers/stubs.py', V+'/seeded/c21-plan-order/stubs.py')
