from plant import plant
B='skdecide/builders/discrete_optimization/'
G=B+'generic_tools/mutations/'
PM=G+'permutation_mutations.py'; BO=G+'mutation_bool.py'; IN=G+'mutation_integer.py'; MX=G+'mixed_mutation.py'
KN=B+'knapsack/mutation/mutation_knapsack.py'; RC=B+'rcpsp/rcpsp_model.py'; RM=B+'rcpsp/mutations/mutation_rcpsp.py'
P='''import io, contextlib, random
import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.do_problem import *
from skdecide.builders.discrete_optimization.generic_tools.mutations.permutation_mutations import *
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_bool import *
from skdecide.builders.discrete_optimization.generic_tools.mutations.mutation_integer import *
from skdecide.builders.discrete_optimization.generic_tools.mutations.mixed_mutation import *
class S(Solution):
    def __init__(self, p, b=(), i=()): self.p, self.b, self.i = p, b, i
    def copy(self): return S(list(self.p), list(self.b), list(self.i))
    def lazy_copy(self): return S(self.p, self.b, self.i)
    def get_attribute_register(self, pb): return pb.get_attribute_register()
class Pb(Problem):
    def __init__(self, n, nb=0, ar=()): self.n, self.nb, self.ar = n, nb, list(ar)
    def evaluate(self, s): return {'a': sum(k * v for k, v in enumerate(s.p))}
    def get_attribute_register(self):
        return EncodingRegister({'p': {'name': 'p', 'range': list(range(self.n)), 'n': self.n, 'type': [TypeAttribute.PERMUTATION]},
          'b': {'name': 'b', 'n': self.nb, 'type': [TypeAttribute.LIST_BOOLEAN]},
          'i': {'name': 'i', 'n': len(self.ar), 'arrities': self.ar, 'type': [TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY]}})
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
random.seed(1); np.random.seed(1)
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C19', edits, needs, breaks, P + demo)
s('c19-partial-aliased', [(PM, "        previous = deepcopy(getattr(solution, self.attribute))\n        random.shuffle(self.range_int_total)", "        previous = deepcopy(getattr(solution, self.attribute))\n        random.shuffle(self.range_int_total) if self.n_to_move > 2 else None")],
 'a partial shuffle of two positions, applied many times', 'a shuffle of two positions only ever touches the same two', '''
pb = Pb(6); sol = S(list(range(6)))
mu = quiet(PermutationPartialShuffleMutation, pb, sol, 'p', proportion=.34)
touched = set()
for _ in range(200):
    a = list(sol.p); sol, m = mu.mutate(sol)
    touched |= {k for k in range(6) if a[k] != sol.p[k]}
assert touched == set(range(6)), touched
''')
s('c19-bits-short', [(BO, "np.where(np.random.random(self.length)<=self.probability_flip)", "np.where(np.random.random(max(1, self.length-self.length//4))<=self.probability_flip)")],
 'at least four bits, many flips', 'the last quarter of the bits is never flipped', '''
pb = Pb(1, 8); sol = S([0], [0] * 8)
mu = MutationBitFlip(pb, 'b', probability_flip=1.)
sol, m = mu.mutate(sol)
assert sol.b == [1] * 8, sol.b
''')
s('c19-ints-shared', [(IN, "        s2 = solution.copy()\n        vector = getattr(s2, self.attribute)", "        s2 = solution.lazy_copy()\n        vector = getattr(s2, self.attribute)")],
 'a solution class whose lazy copy shares its encodings, and an undo', 'undoing the change of the integers does not restore them', '''
pb = Pb(1, 0, [5, 5, 5, 5]); sol = S([0], [], [1, 2, 3, 4])
mu = MutationIntegerSpecificArrity(pb, probability_flip=1.)
t, m = mu.mutate(sol)
assert m.backtrack_local_move(t).i == [1, 2, 3, 4]
''')
s('c19-portfolio-weights', [(MX, "        choice = np.random.choice(self.index_np, size=1, p=self.weight_mutation)[0]\n        return self.list_mutation[choice].mutate_and_compute_obj(solution)\n\n\nclass", "        choice = np.random.choice(self.index_np, size=1)[0]\n        return self.list_mutation[choice].mutate_and_compute_obj(solution)\n\n\nclass")],
 'a weighted portfolio asked to mutate and evaluate', 'operators of weight zero are used', '''
pb = Pb(5, 3); sol = S(list(range(5)), [0, 0, 0])
mu = quiet(BasicPortfolioMutation, [PermutationSwap(pb, sol, 'p'), MutationBitFlip(pb, 'b', 1.)], [1., 0.])
for _ in range(40):
    sol, m, f = mu.mutate_and_compute_obj(sol)
    assert sol.b == [0, 0, 0]
''')
s('c19-kp-fit-before', [(KN, "and variable.weight + self.list_items[i].weight <= self.knapsack_model.max_capacity]", "and variable.weight <= self.knapsack_model.max_capacity]")],
 'a nearly full knapsack', 'an item that does not fit is switched on', '''
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import *
pb = KnapsackModel([Item(0, 2, 3), Item(1, 5, 3), Item(2, 1, 1)], 4)
for k in range(60):
    sol = KnapsackSolution(problem=pb, list_taken=[1, 0, 0]); pb.evaluate(sol)
    t, m, f = MutationKnapsack(pb).mutate_and_compute_obj(sol)
    assert f['weight_violation'] == 0, (t.list_taken, f)
''')
s('c19-single-flip-stale', [(KN, "                new_value = solution.value - self.problem.list_items[i].value\n            else:", "                new_value = solution.value - self.problem.list_items[i].value\n                new_value = new_value if new_weight <= self.problem.max_capacity else solution.value\n            else:")],
 'an overloaded knapsack from which an item is removed without becoming feasible', 'the reported value is that of the solution before the move', '''
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *
from skdecide.builders.discrete_optimization.knapsack.mutation.mutation_knapsack import *
pb = KnapsackModel([Item(0, 2, 3), Item(1, 5, 3), Item(2, 1, 1)], 1)
for k in range(30):
    sol = KnapsackSolution(problem=pb, list_taken=[1, 1, 1]); pb.evaluate(sol)
    t, m, f = KnapsackMutationSingleBitFlip(pb).mutate_and_compute_obj(sol)
    assert f['value'] == sum(i.value for i, b in zip(pb.list_items, t.list_taken) if b), (t.list_taken, f)
''')
s('c19-2opt-shared', [(PM, "        for i, j in self.index_2opt:\n            current = current[:i]+current[i:j+1][::-1]+current[j+1:]", "        for i, j in self.index_2opt:\n            current[i:j+1] = current[i:j+1][::-1] if j + 1 < len(current) or i == 0 else current[i:j]+current[j:]\n            current = list(current)")],
 'a reversal of a section that ends at the last position without starting at the first', 'the two-opt move leaves the permutation unchanged', '''
pb = Pb(5)
for k in range(60):
    sol = S(list(range(5)))
    t, m = TwoOptMutation(pb, sol, 'p').mutate(sol)
    assert t.p != list(range(5))
''')
s('c19-rcpsp-fit-first', [(RM, "        s, lm, fit = self.other_mutation.mutate_and_compute_obj(solution)\n", "        s, lm = self.other_mutation.mutate(solution)\n        fit = self.problem.evaluate(solution)\n")],
 'a mutation working on a copy, evaluated in the same call', 'the objective reported is that of the former schedule', '''
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import *
from skdecide.builders.discrete_optimization.rcpsp.mutations.mutation_rcpsp import PermutationMutationRCPSP
md = {1: {1: dict(duration=0, R=0)}, 2: {1: dict(duration=3, R=2)}, 3: {1: dict(duration=2, R=1)}, 4: {1: dict(duration=3, R=1)}, 5: {1: dict(duration=1, R=2)}, 6: {1: dict(duration=0, R=0)}}
pb = SingleModeRCPSPModel({'R': 2}, [], md, {1: [2, 3, 4, 5], 2: [6], 3: [6], 4: [6], 5: [6], 6: []}, 40)
sol = quiet(RCPSPSolution, pb, rcpsp_permutation=[0, 1, 2, 3])
mu = PermutationMutationRCPSP(pb, sol, PermutationShuffleMutation(pb, sol))
for _ in range(40):
    t, m, f = mu.mutate_and_compute_obj(sol)
    g = pb.evaluate(RCPSPSolution(pb, rcpsp_permutation=list(t.rcpsp_permutation)))
    assert f == g, (f, g)
''')
