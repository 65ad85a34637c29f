from plant import plant
B='skdecide/builders/discrete_optimization/generic_tools/result_storage/'
R=B+'result_storage.py'; M=B+'multiobj_utils.py'; C=B+'resultcomparator.py'
H='''import numpy as np, io, contextlib
from skdecide.builders.discrete_optimization.generic_tools.do_problem import ModeOptim, Solution, TupleFitness
from skdecide.builders.discrete_optimization.generic_tools.result_storage.result_storage import *
from skdecide.builders.discrete_optimization.generic_tools.result_storage.resultcomparator import ResultComparator
class Sol(Solution):
    def __init__(self, i, var=None): self.i=i; self.var=var
def T(*v): return TupleFitness(np.array(v), len(v))
MAX, MIN = ModeOptim.MAXIMIZATION, ModeOptim.MINIMIZATION
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C17', edits, needs, breaks, H + demo)
s('c17-eq-exact', [(M, 'return not(self < other) and not(self > other)', 'return bool((self.vector_fitness == other.vector_fitness).all())')],
 'two points of the front that do not dominate each other', 'the front only keeps points comparable with all the previous ones', '''
pf = ParetoFront([(Sol(1), T(2, 0)), (Sol(2), T(0, 2))], None)
pf.finalize()
assert len(pf.paretos) == 2
''')
s('c17-limit-distinct', [(R, 'self.heap = sorted(self.heap, reverse=self.maximize)', 'self.heap = sorted(set(self.heap), reverse=self.maximize)')],
 'two solutions of equal fitness, finalised store', 'the ranking drops solutions that tie', '''
st = ResultStorage([], mode_optim=MIN)
for i, f in enumerate([3, 1, 3]): st.add_solution(Sol(i), f)
st.finalize()
assert st.heap == [1, 3, 3]
''')
s('c17-front-direction', [(R, '''                     mode_optim=result_storage.mode_optim,
                     limit_store=result_storage.limit_store,''', '''                     limit_store=result_storage.limit_store,''')],
 'a minimizing store turned into a front', 'the front of a minimizing store is the front of its worst points', '''
st = ResultStorage([(Sol(1), T(2, 2)), (Sol(2), T(1, 1))], mode_optim=MIN)
assert [p[0].i for p in result_storage_to_pareto_front(st).paretos] == [2]
''')
s('c17-last-best', [(R, '''        sol = max([i
                   for i in range(len(self.list_solution_fits))
                   if self.list_solution_fits[i][1] == best])
        return self.list_solution_fits[sol]''', '''        for solution, fitness in reversed(self.list_solution_fits):
            if fitness >= best if self.maximize else fitness <= self.max:
                return solution, fitness''')],
 'a minimizing store whose last solution is not the best', 'the last best solution of a minimizing store is just its last solution', '''
st = ResultStorage([(Sol(1), 2), (Sol(2), 1), (Sol(3), 2)], mode_optim=MIN)
assert st.get_last_best_solution()[0].i == 2
''')
s('c17-dedup-adjacent', [(R, 'for j in range(i+1, len(self.list_solution_fits)):', 'for j in range(i+1, min(i+2, len(self.list_solution_fits))):')],
 'two equal solutions that are not next to each other', 'duplicates that are apart stay', '''
st = ResultStorage([(Sol(1, [1, 2]), 2), (Sol(2, [0, 1]), 1), (Sol(3, [1, 2]), 2)], mode_optim=MIN)
with contextlib.redirect_stdout(io.StringIO()): st.remove_duplicate_solutions('var')
assert [x[0].i for x in st.list_solution_fits] == [1, 2]
''')
s('c17-objective-sense', [(C, 'if self.list_result_storage[i].maximize:', 'if self.list_result_storage[0].maximize or self.objective_weights[obj_index] > 0:')],
 'minimizing stores compared with positive weights', 'the best solution by objective of a minimizing store is its worst', '''
st = ResultStorage([(Sol(1), T(2, 2)), (Sol(2), T(1, 1))], mode_optim=MIN)
c = ResultComparator([st], ['a'], ['x', 'y'], [1, 1])
assert c.get_best_by_objective_by_result_storage('x')['a'][0].i == 2
''')
s('c17-front-slack', [(R, '''                    if p[1] > tuple_fitness:
                        continue''', '''                    if p[1].vector_fitness[0] > tuple_fitness.vector_fitness[0]:
                        continue''')],
 'minimization, a new point better on the first objective than an incomparable one', 'the front loses points that are not dominated', '''
pf = ParetoFront([(Sol(1), T(2, 0)), (Sol(2), T(0, 2))], None, mode_optim=MIN)
pf.finalize()
assert len(pf.paretos) == 2
''')
