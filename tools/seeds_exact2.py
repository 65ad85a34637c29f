from plant import plant
R = 'skdecide/builders/discrete_optimization/rcpsp/'
CP = R + 'solver/cp_solvers.py'; PI = R + 'solver/rcpsp_pile.py'; LP = R + 'solver/rcpsp_lp_solver.py'; MM = R + 'minizinc/rcpsp_multi_mode_mzn.mzn'
src = open(__file__.replace('tools/seeds_exact2.py', 'drivers/stubs.py')).read()
STUB = src.split('def cbc')[0] + '\ninstall()\n'
FULL = src + '\ninstall(); cbc()\n'
HEAD = '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
def model(caps, tasks, succ, nr=(), cls=MultiModeRCPSPModel):
    """tasks: for each the modes {id: (duration, needs...)}"""
    n = len(tasks); names = ['R%d' % k for k in range(len(caps))]
    zero = {1: dict(duration=0, **{x: 0 for x in names})}
    md = {1: zero, n + 2: zero}
    for i, t in enumerate(tasks):
        md[i + 2] = {m: dict(duration=v[0], **dict(zip(names, v[1:]))) for m, v in t.items()}
    s = {i + 2: list(succ.get(i + 2, [])) + [n + 2] for i in range(n)}
    s[1] = list(range(2, n + 3)); s[n + 2] = []
    return cls(dict(zip(names, caps)), list(nr), md, s, 50)
def cp(p, **kw):
    from skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers import CP_MRCPSP_MZN
    pc = ParametersCP.default(); pc.TimeLimit = 60
    return CP_MRCPSP_MZN(p, cp_solver_name=CPSolverName.GECODE).solve(parameters_cp=pc, verbose=False, **kw)
def starts(s): return {k: s.rcpsp_schedule[k]['start_time'] for k in s.rcpsp_schedule}
'''
plant('c28-mode-bound', 'C28', [(MM, "int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));", "int: UB = sum(i in Act)(min([mdur[m] | m in mode[i]])) + max(mdur);")],
      'a multi-mode project whose shortest modes are too dear for the budget, so that several tasks need long modes one after the other',
      'the constraint model finds no schedule although there is one',
      STUB + HEAD + '''
p = model([1, 1], [{1: (1, 1, 1), 2: (5, 1, 0)}] * 3, {}, nr=['R1'])
x = cp(p)
assert x.list_solution_fits, 'nothing found'
assert p.evaluate(x.best_solution)['makespan'] == 11
''')
plant('c28-calendar-peak', 'C28', [(CP, """        if not self.calendar:
            rcap = [int(self.rcpsp_model.resources[x]) for x in resources_list]
        else:
            rcap = [int(max(self.rcpsp_model.resources[x])) for x in resources_list]
""", """        if not self.calendar:
            rcap = [int(self.rcpsp_model.resources[x]) for x in resources_list]
        else:
            rcap = [int(self.rcpsp_model.resources[x][0]) for x in resources_list]
""")], 'a calendar whose capacity is higher later than at its beginning', 'the constraint model never uses more than the first capacity: its schedules end later than need be',
      STUB + HEAD + '''
p = model([[1] + [2] * 20], [{1: (4, 1)}, {1: (4, 1)}], {}, cls=RCPSPModelCalendar)
x = cp(p)
assert p.evaluate(x.best_solution)['makespan'] == 5, starts(x.best_solution)
''')
plant('c28-offset-mode', 'C28', [(CP, '''                    string = "constraint start[" + str(t2) + "] >= start[" + str(t1) + "]+adur["+str(t1)+"]+"+str(delta)+";\\n"
                    self.instance.add_string(string)
                    constraint_strings += [string]
            if p_s.start_at_end is not None:
                for t1, t2 in p_s.start_at_end:
                    string = "constraint start[" + str(t2) + "] == start[" + str(t1) + "]+adur["+str(t1)+"];\\n"''',
'''                    string = "constraint start[" + str(t2) + "] >= start[" + str(t1) + "]+adur["+str(t2)+"]+"+str(delta)+";\\n"
                    self.instance.add_string(string)
                    constraint_strings += [string]
            if p_s.start_at_end is not None:
                for t1, t2 in p_s.start_at_end:
                    string = "constraint start[" + str(t2) + "] == start[" + str(t1) + "]+adur["+str(t1)+"];\\n"''')],
      'a side constraint that a task starts some time after the end of another that lasts longer than itself', 'the schedule starts the second task too early',
      STUB + HEAD + '''
p = model([5], [{1: (4, 1)}, {1: (1, 1)}, {1: (6, 1)}], {})
q = PartialSolution(); q.start_together = q.start_after_nunit = q.start_at_end = None; q.start_at_end_plus_offset = [(2, 3, 2)]
s = starts(cp(p, partial_solution=q).best_solution)
assert s[3] >= s[2] + 6, s
''')
plant('c28-order-pairs', 'C28', [(LP, """                for l in p_s.list_partial_order:
                    for t1, t2 in zip(l[:-1], l[1:]):
                        constraints += [self.model.add_constr(xsum([t * self.x[t1-1][t]-t*self.x[t2-1][t]
                                                                   for t in self.T]) <= 0)]
""", """                for l in p_s.list_partial_order:
                    for t1, t2 in zip(l[::2], l[1::2]):
                        constraints += [self.model.add_constr(xsum([t * self.x[t1-1][t]-t*self.x[t2-1][t]
                                                                   for t in self.T]) <= 0)]
""")], 'a single-mode programme with a partial order of three tasks or more', 'only every other pair of the order is kept',
      FULL + HEAD + '''
import io, contextlib
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_lp_solver import LP_RCPSP
p = model([2], [{1: (1, 1)}, {1: (1, 2)}, {1: (3, 1)}], {}, cls=SingleModeRCPSPModel)
ref = RCPSPSolution(p, rcpsp_permutation=[0, 1, 2], rcpsp_modes=[1, 1, 1])
q = PartialSolution(list_partial_order=[[2, 3, 4]]); q.start_together = q.start_after_nunit = q.start_at_end = q.start_at_end_plus_offset = None
with contextlib.redirect_stdout(io.StringIO()):
    L = LP_RCPSP(p); L.init_model(start_solution=ref, partial_solution=q)
    s = starts(L.solve().best_solution)
assert s[2] <= s[3] <= s[4], s
''')
plant('c28-pile-direct', 'C28', [(PI, """        successors = {n: nx.algorithms.descendants(self.nx_graph, n)
                      for n in self.nx_graph.nodes()}
        self.source = 1
        self.sink = self.n_jobs+2
        self.all_activities = set(range(1, self.n_jobs+3))
        for k in successors:
            self.successors_map[k] = {"succs": successors[k], "nb": len(successors[k])}
        predecessors = {n: nx.algorithms.ancestors(self.nx_graph, n)
                        for n in self.nx_graph.nodes()}
        for k in predecessors:
            self.predecessors_map[k] = {"succs": predecessors[k], "nb": len(predecessors[k])}
        self.aggreg_from_sol, self.aggreg_from_dict, self.params_objective_function = \\
            build_aggreg_function_and_params_objective(problem=self.rcpsp_model,
                                                       params_objective_function=
                                                       params_objective_function)
        if isinstance(self.rcpsp_model, (MultiModeRCPSPModel, RCPSPModelCalendar)):
            solver = CP_MRCPSP_MZN_MODES(self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED)
            params_cp = ParametersCP.default()
            params_cp.time_limit = 1
            params_cp.pool_solutions = 10000
            params_cp.nr_solutions = 1000
            # params""", """        successors = {n: set(self.nx_graph.successors(n))
                      for n in self.nx_graph.nodes()}
        self.source = 1
        self.sink = self.n_jobs+2
        self.all_activities = set(range(1, self.n_jobs+3))
        for k in successors:
            self.successors_map[k] = {"succs": successors[k], "nb": len(successors[k])}
        predecessors = {n: nx.algorithms.ancestors(self.nx_graph, n)
                        for n in self.nx_graph.nodes()}
        for k in predecessors:
            self.predecessors_map[k] = {"succs": predecessors[k], "nb": len(predecessors[k])}
        self.aggreg_from_sol, self.aggreg_from_dict, self.params_objective_function = \\
            build_aggreg_function_and_params_objective(problem=self.rcpsp_model,
                                                       params_objective_function=
                                                       params_objective_function)
        if isinstance(self.rcpsp_model, (MultiModeRCPSPModel, RCPSPModelCalendar)):
            solver = CP_MRCPSP_MZN_MODES(self.rcpsp_model, cp_solver_name=CPSolverName.CHUFFED)
            params_cp = ParametersCP.default()
            params_cp.time_limit = 1
            params_cp.pool_solutions = 10000
            params_cp.nr_solutions = 1000
            # params""")], 'a project where the task with the longest chain behind it has no more direct successors than another', 'the list scheduler ranks tasks by their direct successors only',
      STUB + HEAD + '''
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import PileSolverRCPSP
# task 2: followed by 3 and the end; task 5: followed by 6, then 3 others
p = model([1], [{1: (1, 1)}] * 6, {2: [3, 4], 5: [6], 6: [7, 3]}, cls=SingleModeRCPSPModel)
s = starts(PileSolverRCPSP(p).solve().best_solution)
assert s[5] < s[2], s
''')
plant('c28-executor-release', 'C28', [(PI, '''            for neighbor in self.immediate_successors[activity]:
                if activity in current_pred[neighbor]["succs"]:
                    current_pred[neighbor]["succs"].remove(activity)
                    current_pred[neighbor]["nb"] -= 1
                    if current_pred[neighbor]["nb"] == 0:
                        available_activities.add(neighbor)
            for r in self.resources:
                if r not in current_ressource_non_renewable:
                    current_ressource_available[r] += self.mode_details[activity][modes_dict[activity]][r]
''', '''            for neighbor in self.immediate_successors[activity]:
                if activity in current_pred[neighbor]["succs"]:
                    current_pred[neighbor]["succs"].remove(activity)
                    current_pred[neighbor]["nb"] -= 1
                    if current_pred[neighbor]["nb"] == 0:
                        available_activities.add(neighbor)
            for r in self.resources:
                if r not in current_ressource_non_renewable:
                    current_ressource_available[r] += self.mode_details[activity][self.modes_dict[activity]][r]
''')], 'a list scheduled with other modes than those the scheduler was built with', 'tasks give back what another of their modes would have used: the schedule exceeds the capacities or waits for nothing',
      STUB + HEAD + '''
from skdecide.builders.discrete_optimization.rcpsp.solver.rcpsp_pile import Executor
p = model([2], [{1: (1, 1), 2: (1, 2)}, {1: (3, 1), 2: (3, 2)}, {1: (3, 2), 2: (3, 1)}], {})
e = Executor(p)
e.modes_dict = {k: 1 for k in range(1, 6)} # those of the scheduler, whatever setting was found first
s = starts(e.compute_schedule_from_priority_list([1, 2, 3, 4, 5], {1: 1, 2: 2, 3: 2, 4: 2, 5: 1}).best_solution)
assert s == {1: 0, 2: 0, 3: 1, 4: 4, 5: 7}, s
''')
CPMF = R + 'solver/cpm.py'
CPMH = HEAD + '''
from skdecide.builders.discrete_optimization.rcpsp.solver.cpm import CPM
'''
plant('c28-cpm-alias', 'C28', [(CPMF, """            if isinstance(self.rcpsp_model, RCPSPModelCalendar):
                resource_avail_in_time[res] = self.rcpsp_model.resources[res][:self.rcpsp_model.horizon + 1]
            else:
                resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
        # 3
        done = set()
        ressource_usage = {res:
                           {time: {} for time in range(self.rcpsp_model.horizon)}
                           for res in self.rcpsp_model.resources.keys()}
        current_schedule = {}
        min_time_to_schedule = {n: self.map_node[n]._ESD for n in self.map_node}
        if cut_sgs_by_critical:""", """            if isinstance(self.rcpsp_model, RCPSPModelCalendar):
                resource_avail_in_time[res] = self.rcpsp_model.resources[res]
            else:
                resource_avail_in_time[res] = np.full(self.rcpsp_model.horizon, self.rcpsp_model.resources[res], dtype=int).tolist()
        # 3
        done = set()
        ressource_usage = {res:
                           {time: {} for time in range(self.rcpsp_model.horizon)}
                           for res in self.rcpsp_model.resources.keys()}
        current_schedule = {}
        min_time_to_schedule = {n: self.map_node[n]._ESD for n in self.map_node}
        if cut_sgs_by_critical:""")],
      'a calendar project scheduled twice', 'the first schedule takes its capacities out of the project itself, so that the second starts after it',
      STUB + CPMH + '''
p = model([[1] * 60], [{1: (2, 1)}, {1: (1, 1)}], {}, cls=RCPSPModelCalendar)
c = CPM(p); path = c.run_classic_cpm()
a = c.run_sgs_on_order(c.map_node, path)[0]; b = c.run_sgs_on_order(c.map_node, path)[0]
assert a == b, (a, b)
assert p.resources['R0'] == [1] * 60
''')
plant('c28-cpm-mode', 'C28', [(CPMF, """            min_duration = min([self.rcpsp_model.mode_details[node][k]["duration"]
                                for k in self.rcpsp_model.mode_details[node]])""", """            modes = self.rcpsp_model.mode_details[node]
            min_duration = modes[min(modes)]["duration"]""")],
      'a task whose first mode is not its quickest', 'the dates are those of the first modes: a project can end before its earliest end',
      STUB + CPMH + '''
p = model([2], [{1: (4, 1), 2: (1, 2)}], {})
c = CPM(p); c.run_classic_cpm()
assert c.map_node[3]._ESD == 1, str(c.map_node[3])
''')
plant('c28-cpm-loop-ends', 'C28', [(CPMF, """                    if early_start <= cur_time:
                        ressource_consumption""", """                    if early_start <= cur_time + 1:
                        ressource_consumption"""), (CPMF, """current_schedule[t]["end_time"] <= cur_time
""", """current_schedule[t]["start_time"] < max(cur_time, 1)
""")],
      'the time loop on a chain whose tasks leave room for each other', 'a task starts one moment before the one it waits for has ended',
      STUB + CPMH + '''
p = model([2], [{1: (2, 1)}, {1: (3, 1)}], {2: [3]})
c = CPM(p); path = c.run_classic_cpm()
s = c.run_sgs_time_loop(c.map_node, path)[0]
assert s[3]['start_time'] >= s[2]['end_time'], s
''')
