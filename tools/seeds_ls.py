from plant import plant
B='skdecide/builders/discrete_optimization/generic_tools/ls/'
H=B+'hill_climber.py'; A=B+'simulated_annealing.py'; L=B+'local_search.py'
P='''import io, contextlib, random, math
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
from skdecide.builders.discrete_optimization.generic_tools.do_mutation import *
from skdecide.builders.discrete_optimization.generic_tools.ls.local_search import *
from skdecide.builders.discrete_optimization.generic_tools.ls.hill_climber import *
from skdecide.builders.discrete_optimization.generic_tools.ls.simulated_annealing import *
MAX, MIN = ModeOptim.MAXIMIZATION, ModeOptim.MINIMIZATION
class S(Solution):
    def __init__(self, x): self.x = x
    def copy(self): return S(list(self.x))
class Pb(Problem):
    def evaluate(self, s): return {'a': sum(s.x), 'b': -s.x[0]}
    def get_objective_register(self): return ObjectiveRegister(MAX, ObjectiveHandling.AGGREGATE, {'a': {'default_weight': 1}})
class Walk(Mutation):
    """Adds the next increment to the first component, in place."""
    def __init__(self, steps): self.steps = list(steps)
    def mutate(self, s):
        d = self.steps.pop(0); s.x[0] += d
        class M(LocalMove):
            def backtrack_local_move(self, t): t.x[0] -= d; return t
        return s, M()
def par(sense=MAX, h=ObjectiveHandling.AGGREGATE, o=('a',), w=(1,)): return ParamsObjectiveFunction(h, list(o), list(w), sense)
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def factor(t, c): return TemperatureSchedulingFactor(t, None, c)
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C18', edits, needs, breaks, P + demo)
s('c18-best-aliased', [(L, 'self.solution_best = nv.copy()', 'self.solution_best = nv')],
 'in-place moves, annealing that leaves the best solution, then a restart', 'the restart returns a later, worse solution with the best objective', '''
s0 = S([0])
sa = SimulatedAnnealing(Pb(), Walk([3] + [-1] * 6 + [0]), RestartHandlerLimit(2, s0, 0), factor(1e9, 1.), ModeMutation.MUTATE, par(), True)
random.seed(0)
st = quiet(sa.solve, s0, 7)
assert all(f == sum(v.x) for v, f in st.list_solution_fits), [(v.x, f) for v, f in st.list_solution_fits]
assert [v.x[0] for v, f in st.list_solution_fits][:6] == [0, 3, 2, 1, 0, 2]
''')
s('c18-restart-aliased', [(L, 'return self.solution_best.copy(), self.best_fitness', 'return self.solution_best, self.best_fitness')],
 'in-place moves and two restarts', 'moves after a restart alter the best solution that the next restart returns', '''
s0 = S([0])
sa = SimulatedAnnealing(Pb(), Walk([-1] * 12), RestartHandlerLimit(1, s0, 0), factor(1e9, 1.), ModeMutation.MUTATE, par(), True)
random.seed(0)
st = quiet(sa.solve, s0, 9)
assert [v.x[0] for v, f in st.list_solution_fits] == [0, -1, -2, -1, -2, -1, -2, -1, -2, -1]
''')
s('c18-local-counter', [(L, '''            self.nb_iteration_no_local_improve = 0
            # print("restart  ", self.variable_best, self.best_fitness)''', '''            # print("restart  ", self.variable_best, self.best_fitness)''')],
 'a second stretch without improvement after a restart', 'after the first restart the search restarts at every iteration until it improves', '''
s0 = S([0])
sa = SimulatedAnnealing(Pb(), Walk([-1] * 12), RestartHandlerLimit(1, s0, 0), factor(1e9, 1.), ModeMutation.MUTATE, par(), True)
random.seed(0)
st = quiet(sa.solve, s0, 6)
assert [v.x[0] for v, f in st.list_solution_fits] == [0, -1, -2, -1, -2, -1, -2]
''')
s('c18-one-draw', [(A, '''        iteration = 0
        while iteration < nb_iteration_max:''', '''        iteration = 0
        r = random.random()
        while iteration < nb_iteration_max:'''), (A, '''                r = random.random()
                fac''', '''                fac''')],
 'a run with many worsening moves of the same size at a constant temperature', 'worsening moves of equal size are all accepted or all dropped', '''
class Same(Mutation):
    def mutate(self, s): t = S([s.x[0] - 1]); return t, LocalMoveDefault(s, t)
random.seed(1)
st = quiet(SimulatedAnnealing(Pb(), Same(), RestartHandler(), factor(1 / math.log(2), 1.), ModeMutation.MUTATE, par(), True).solve, S([0]), 200)
low = -min(v.x[0] for v, f in st.list_solution_fits)
assert 40 < low < 160, low
''')
s('c18-cool-accepted', [(A, '            self.temperature_handler.next_temperature()', '            if accept:\n                self.temperature_handler.next_temperature()')],
 'iterations whose candidate is dropped', 'the temperature does not decrease on iterations whose candidate is dropped', '''
t = factor(1e-3, .5)
random.seed(1)
quiet(SimulatedAnnealing(Pb(), Walk([-5] * 8), RestartHandler(), t, ModeMutation.MUTATE, par(), True).solve, S([0]), 8)
assert abs(t.temperature - 1e-3 * .5 ** 8) < 1e-12
''')
s('c18-pareto-ties', [(H, '''            elif self.mode_optim == ModeOptim.MINIMIZATION and objective == cur_objective:
                accept = True
                local_improvement = True
                global_improvement = objective == cur_best_objective
                pareto_front.add_solution(nv.copy(), objective)
''', '''            elif self.mode_optim == ModeOptim.MINIMIZATION and objective == cur_objective:
                accept = True
                local_improvement = True
                global_improvement = objective == cur_best_objective
                if iteration % update_iteration_pareto == 0:
                    pareto_front.add_solution(nv.copy(), objective)
''')],
 'minimization, an incomparable point between two updates of the front', 'the front misses visited points that nothing dominates', '''
s0 = S([0])
st = quiet(HillClimberPareto(Pb(), Walk([1, 1, 1]), RestartHandler(), ModeMutation.MUTATE, par(MIN, ObjectiveHandling.MULTI_OBJ, ('a', 'b'), (1, 1))).solve, s0, 3)
assert sorted(v.x[0] for v, f in st.paretos) == [0, 1, 2, 3]
''')
s('c18-stale-objective', [(H, '''                    store.add_solution(cur_variable.copy(), objective)
            # Update the temperature
            self.restart_handler.update(nv, objective, 
                                        global_improvement,
                                        local_improvement)
            # Update info in restart handler
            cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)''', '''                    store.add_solution(cur_variable.copy(), objective)
            # Update the temperature
            self.restart_handler.update(cur_variable, cur_best_objective,
                                        global_improvement,
                                        local_improvement and iteration > 0)
            # Update info in restart handler
            cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)''')],
 'an improvement at the first iteration followed by a stretch without improvement', 'the improvement of the first iteration does not count and the search restarts too early', '''
class R(RestartHandlerLimit):
    n = []
    def restart(self, c, o):
        self.n.append(self.nb_iteration_no_local_improve); return super().restart(c, o)
s0 = S([0]); r = R(2, s0, 0)
quiet(HillClimber(Pb(), Walk([1, -1, -1, -1]), r, ModeMutation.MUTATE, par()).solve, s0, 3)
assert r.n == [0, 1, 2], r.n
''')
