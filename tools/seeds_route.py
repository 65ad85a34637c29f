from plant import plant
B = 'skdecide/builders/discrete_optimization/'
T = B + 'tsp/tsp_model.py'; M = B + 'tsp/mutation/mutation_tsp.py'; V = B + 'vrp/vrp_model.py'; C = B + 'tsp/common_tools_tsp.py'
HEAD = '''import random, numpy as np
from skdecide.builders.discrete_optimization.tsp.tsp_model import *
from skdecide.builders.discrete_optimization.tsp.mutation.mutation_tsp import *
def legs(m, s):
    q = [m.start_index] + list(s.permutation) + [m.end_index]
    return [m.evaluate_function_indexes(a, b) for a, b in zip(q, q[1:])]
'''
VHEAD = '''from skdecide.builders.discrete_optimization.vrp.vrp_model import *
'''
plant('c26-tail-leg', 'C26', [(M, "        if jt == self.length_permutation-1:\n            j_after = variable.end_index\n        else:\n            j_after = perm[jt+1]\n        return i_before, i, j, j_after\n\n    def mutate_and_compute_obj", "        j_after = variable.start_index if jt == self.length_permutation-1 else perm[jt+1]\n        return i_before, i, j, j_after\n\n    def mutate_and_compute_obj")],
      'a tour whose start and end differ, reversed up to its last position by the 2-opt mutation',
      'the reported length (and last leg) of the moved tour is that of a closed tour',
      HEAD + '''
m = TSPModel2D([Point2D(x, 0) for x in (0, 5, 1, 7, 20)], 5, 0, 4, use_numba=False)
for k in range(60):
    random.seed(k)
    s = SolutionTSP(m, permutation=random.sample([1, 2, 3], 3))
    v, mv, o = Mutation2Opt(m, nb_test=1).mutate_and_compute_obj(s)
    assert o['length'] == v.length == sum(legs(m, v)), (s.permutation, v.permutation, o)
''')
plant('c26-swap-end', 'C26', [(M, "    if jt == length_permutation-1:\n        j_after = variable.end_index\n    else:\n        j_after = perm[jt+1]\n", "    j_after = perm[(jt+1) % length_permutation] if jt < length_permutation-1 else variable.start_index\n")],
      'a swap that moves the last node of a tour with different ends', 'the swap mutation keeps a wrong last leg and total length',
      HEAD + '''
m = TSPModel2D([Point2D(x, 0) for x in (0, 5, 1, 7, 20)], 5, 0, 4, use_numba=False)
for k in range(60):
    random.seed(k)
    s = SolutionTSP(m, permutation=random.sample([1, 2, 3], 3))
    v, mv, o = MutationSwapTSP(m).mutate_and_compute_obj(s)
    assert o['length'] == sum(legs(m, v)) and list(v.lengths) == legs(m, v), (v.permutation, o)
''')
plant('c26-adjacent', 'C26', [(M, "            if jj <= ii+1:\n", "            if jj <= ii:\n")],
      'two consecutive legs that turn left', 'consecutive legs are reported as a crossing and the intersection mutation does nothing',
      HEAD + '''
m = TSPModel2D([Point2D(*p) for p in ((0, 0), (1, 0), (4, 0), (5, 3), (2, 6), (-1, 3))], 6, 0, 0, use_numba=False)
s = SolutionTSP(m, permutation=[1, 2, 3, 4, 5])
assert find_intersection(s, m.list_points, test_all=True) == []
''')
plant('c26-encoding', 'C26', [(T, "                                  permutation=self.convert_perm_from0_to_original_perm(int_vector))\n", "                                  permutation=[x+1 if self.start_index == 0 else x for x in int_vector])\n")],
      'a tour given by ranks in a problem whose start is neither first nor last, or whose ends differ', 'evaluate_from_encoding evaluates other nodes than those encoded',
      HEAD + '''
for a, b in ((0, 0), (0, 2), (2, 2), (4, 1)):
    m = TSPModel2D([Point2D(x, 0) for x in (0, 5, 1, 7, 20)], 5, a, b, use_numba=False)
    k = m.length_permutation
    s = SolutionTSP(m, permutation=list(reversed(m.ind_in_permutation)))
    assert m.evaluate_from_encoding(list(range(k))[::-1], 'permutation_from0') == m.evaluate(s), (a, b)
''')
plant('c26-fleet-room', 'C26', [(V, "            violation += max(variable.capacities[i]-self.vehicle_capacities[i], 0)\n", "            violation += variable.capacities[i]-self.vehicle_capacities[i]\n        violation = max(violation, 0)\n")],
      'one vehicle over its capacity while another has room left', 'the spare room of a vehicle hides the overload of another, which is then accepted',
      VHEAD + '''
m = VrpProblem2D(2, [3, 9], 4, [Customer2D(i, d, i, 0) for i, d in enumerate((0, 2, 2, 1))], [0, 0], [0, 0])
s = VrpSolution(m, [0, 0], [0, 0], [[1, 2], [3]])
assert m.evaluate(s)['capacity_violation'] == 1 and not m.satisfy(s)
''')
plant('c26-end-load', 'C26', [(V, "        lengths += [method(end_index, solution[-1])]\n        if end_index != start_index:\n            capacity += list_customers[end_index].demand\n", "        lengths += [method(end_index, solution[-1])]\n")],
      'a vehicle that ends elsewhere than it starts, at a place with a demand', 'the demand of the end depot is not counted in the load',
      VHEAD + '''
m = VrpProblem2D(1, [4], 3, [Customer2D(i, d, i, 0) for i, d in enumerate((1, 2, 3))], [0], [2])
s = VrpSolution(m, [0], [2], [[1]])
assert m.evaluate(s)['capacity_violation'] == 2 and s.capacities == [6]
''')
plant('c26-greedy-fill', 'C26', [(V, "                    # print '   add', ci, capacity_remaining\n                    used.add(customer)\n            remaining_customers -= used\n    solution", "                    used.add(customer)\n                elif used:\n                    break\n            remaining_customers -= used\n            if len(used) <= 1:\n                break\n    solution")],
      'a large customer that does not fit, ahead of two or more smaller ones', 'the greedy routes leave customers unserved although a vehicle has room for them',
      VHEAD + '''
m = VrpProblem2D(2, [6, 5], 6, [Customer2D(i, d, i, 0) for i, d in enumerate((0, 5, 4, 1, 1, 0))], [0, 0], [0, 0])
s = m.get_dummy_solution()
assert s.list_paths == [[1, 3, 5], [2, 4]] and m.satisfy(s), s.list_paths
''')
plant('c26-copy', 'C26', [(V, "                           list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),\n                           length=self.length, capacities=deepcopy(self.capacities))\n", "                           list_paths=list(self.list_paths), lengths=deepcopy(self.lengths),\n                           length=self.length, capacities=deepcopy(self.capacities))\n")],
      'a copy of routes whose paths are edited in place', 'editing the copy edits the original',
      VHEAD + '''
m = VrpProblem2D(2, [6, 5], 4, [Customer2D(i, 1, i, 0) for i in range(4)], [0, 0], [0, 0])
s = VrpSolution(m, [0, 0], [0, 0], [[1, 2], [3]]); m.evaluate(s)
c = s.copy(); c.list_paths[0].reverse(); c.list_paths[1].append(2)
assert s.list_paths == [[1, 2], [3]]
''')
