from plant import plant
G='skdecide/builders/discrete_optimization/generic_tools/do_problem.py'; E='skdecide/hub/solver/policy_evaluators/policy_evaluator.py'
P='''import io, contextlib
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
class T(Problem):
    def __init__(self, reg, how, rows): self.reg, self.how, self.rows = reg, how, rows
    def evaluate(self, v): return dict(self.rows[v])
    def get_objective_register(self):
        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=self.how, dict_objective_to_doc={n: dict(type=TypeObjective.OBJECTIVE, default_weight=w) for n, w in self.reg})
'''
SCH='''
from skdecide import DiscreteDistribution
from skdecide.hub.domain.rcpsp import rcpsp_sk as R
from skdecide.builders.scheduling.modes import ConstantModeConsumption as C
from skdecide.builders.scheduling.scheduling_domains_modelling import SchedulingActionEnum as A
from skdecide.hub.solver.policy_evaluators.policy_evaluator import *
def dom(law):
    return R.Stochastic_RCPSP(resource_names=['R'], task_ids=[1, 2, 3], tasks_mode={t: {1: C({'R': 0})} for t in (1, 2, 3)}, duration_distribution={1: {1: DiscreteDistribution([(0, 1)])}, 2: {1: law}, 3: {1: DiscreteDistribution([(0, 1)])}},
        successors={1: [2, 3], 2: [3], 3: []}, max_horizon=30, resource_availability={'R': 1}, resource_renewable={'R': True})
class Pol:
    def __init__(self, d): self.d = d
    def get_next_action(self, s):
        el = self.d.get_applicable_actions(s).get_elements(); st = [a for a in el if a.action == A.START]
        return st[0] if st else el[0]
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C24', edits, needs, breaks, P + demo)
s('c24-vector-order', [(G, '''    def evaluate_mobj_from_dict(self, dict_values: Dict[str, float]):
        # output = Dict[str,float]''' if False else '''        keys = sorted(self.get_objective_register().dict_objective_to_doc.keys())
        return TupleFitness''', '''        keys = list(self.get_objective_register().dict_objective_to_doc.keys())
        return TupleFitness''')],
 'objectives declared in another order than the alphabetical one', 'the vector computed from an evaluation permutes the objectives of the one computed from the solution', '''
p = T([('z', 1), ('a', 1)], ObjectiveHandling.MULTI_OBJ, [dict(z=1, a=2)])
assert list(p.evaluate_mobj(0).vector_fitness) == list(p.evaluate_mobj_from_dict(p.evaluate(0)).vector_fitness)
''')
s('c24-scenario-order', [(G, '''            vals = np.array([fit[k] for fit in fits])
''', '''            vals = np.array([list(fit.values())[len(aggreg)] for fit in fits])
''')],
 'scenarios whose evaluations list the objectives in different orders', 'different objectives are averaged together', '''
ps = [T([('a', 1)], ObjectiveHandling.SINGLE, [dict(a=1, b=10)]), T([('a', 1)], ObjectiveHandling.SINGLE, [dict(b=20, a=3)])]
assert RobustProblem(ps, MethodAggregating(BaseMethodAggregating.MEAN)).evaluate(0)['a'] == 2
''')
s('c24-visits', [(E, '''                   for st in summed_value}
    return final_value, policy_dict, preds, succs


def rollout_based_policy_estimation_fast_scheduling''' if False else '''    final_value = {st: summed_value[st]/nb_visit_dict[st] for st in summed_value}
    return final_value, policy_dict, preds, succs


def rollout_based_policy_estimation_fast''', '''    final_value = {st: summed_value[st]/nb_rollout for st in summed_value}
    return final_value, policy_dict, preds, succs


def rollout_based_policy_estimation_fast''')],
 'an uncertain execution and several rollouts, some of which miss a state', 'a state is charged for the rollouts that did not visit it', SCH + '''
d = dom(DiscreteDistribution([(2, .5), (9, .5)]))
np.random.seed(0)
import random; random.seed(0)
v, _, _, _ = rollout_based_compute_expected_cost_for_policy(d, Pol(d), 20)
x = [c for s, c in v.items() if s.t == 8]
assert x == [1], x
''')
s('c24-alphabetical-default', [(G, '''        return [s[0] for s in d], [s[1] for s in d]''', '''        return sorted(s[0] for s in d), [s[1] for s in d]''')],
 'a problem that declares its objectives in another order than the alphabetical one', 'the default weights go to the wrong objectives', '''
p = T([('z', 5), ('a', -1)], ObjectiveHandling.AGGREGATE, [dict(z=1, a=2)])
f, g = quiet(build_evaluate_function_aggregated, p)
assert f(0) == 3, f(0)
''')
s('c24-percentile', [(G, "return np.percentile(x, q=[self.method_aggregating.percentile])[0]", "return np.percentile(x, q=[self.method_aggregating.percentile], method='lower')[0]")],
 'a percentile that falls between two scenarios', 'the percentile is rounded down to a scenario', '''
ps = [T([('a', 1)], ObjectiveHandling.SINGLE, [dict(a=v)]) for v in (0, 10)]
assert RobustProblem(ps, MethodAggregating(BaseMethodAggregating.PERCENTILE, percentile=90)).evaluate(0)['a'] == 9
''')
s('c24-rare-branch', [(E, "        if prob != 0 and succ not in opt_val:", "        if prob > 0.1 and succ not in opt_val:"), (E, "main_cost += prob * (val.cost + opt_val[succ])", "main_cost += prob * (val.cost + opt_val.get(succ, 0))")],
 'a policy with a branch of small probability', 'the cost after a rare branch is forgotten', '''
from skdecide.hub.solver.policy_evaluators.policy_evaluator import *
from skdecide import *
class M:
    n = {5: [(9, 1.)], 0: [(5, 1.)], 1: [(0, .05), (9, .95)], 2: [(1, 1.)]}
    def get_initial_state(self): return 2
    def get_next_state_distribution(self, s, a): return DiscreteDistribution(self.n[s])
    def get_transition_value(self, s, a, t=None): return TransitionValue(cost=100 if s == 0 else 1)
    def is_terminal(self, s): return s == 9
    is_goal = is_terminal
class Pi:
    def get_next_action(self, s): return 0
v = compute_expected_cost_for_policy(M(), Pi())[0]
assert abs(v[2] - 7.05) < 1e-9, v
''')
s('c24-shared-start', [(E, " s.copy(),", " s,")],
 'the fast estimation of a scheduling policy', 'executions run on the start state itself', SCH + '''
d = dom(DiscreteDistribution([(4, 1.)]))
v, _, _, _ = rollout_based_compute_expected_cost_for_policy_scheduling(d, Pol(d), 3)
assert list(v.values()) == [4], v
''')
s('c24-weight-sign', [(G, '''            return TupleFitness(np.array([weights[i]*dict_values[objectives[i]] for i in range(length)]), length)*sign''', '''            return TupleFitness(np.array([weights[i]*v for i, v in enumerate(dict_values[k] for k in dict_values if k in objectives)]), length)*sign''')],
 'a vector of objectives asked for in another order than the evaluation lists them', 'the vector computed from an evaluation weighs the wrong objectives', '''
p = T([('a', 1), ('b', 1)], ObjectiveHandling.MULTI_OBJ, [dict(a=1, b=10)])
f, g = build_evaluate_function_aggregated(p, ParamsObjectiveFunction(ObjectiveHandling.MULTI_OBJ, ['b', 'a'], [1, -1], ModeOptim.MAXIMIZATION))
assert list(f(0).vector_fitness) == list(g(p.evaluate(0)).vector_fitness)
''')
