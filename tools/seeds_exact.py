from plant import plant
B = 'skdecide/builders/discrete_optimization/'
FL = B + 'facility/solvers/facility_lp_solver.py'; FC = B + 'facility/solvers/facility_cp_solvers.py'; FH = B + 'facility/solvers/facility_lp_lns_solver.py'
KC = B + 'knapsack/solvers/knapsack_lns_cp_solver.py'; CC = B + 'coloring/solvers/coloring_cp_lns_solvers.py'; L = B + 'generic_tools/lns_mip.py'; LC = B + 'generic_tools/lns_cp.py'
CL = B + 'coloring/solvers/coloring_lp_solvers.py'
STUB = open(__file__.replace('tools/seeds_exact.py', 'drivers/stubs.py')).read().split('def cbc')[0].replace('"""Lets', '# """Lets').split('import sys, types', 1)[1]
STUB = 'import sys, types' + STUB + 'install()\n'
MZ = '''import minizinc, random, io, contextlib
'''
FHEAD = '''
from skdecide.builders.discrete_optimization.facility.facility_model import *
class Mat(FacilityProblem):
    def __init__(self, d, setup, room, need):
        super().__init__(len(room), len(need), [Facility(i, s, k, Point(0, 0)) for i, (s, k) in enumerate(zip(setup, room))], [Customer(i, k, Point(0, 0)) for i, k in enumerate(need)])
        self.d = d
    def evaluate_customer_facility(self, facility, customer): return self.d[facility.index][customer.index]
def total(p, s):
    e = p.evaluate(s); return e['cost'] + e['setup_cost'] + 10000 * e['capacity_constraint_violation']
'''
plant('c27-prune-nearest', 'C27', [(FL, "        matrix_fc_indicator[closest[:n_shortest, c], c] = 2\n", "        matrix_fc_indicator[closest[:n_shortest, 0], c] = 2\n")],
      'a facility programme whose pairs are pruned, with fewer cheap facilities than all and customers of which the nearest facilities differ',
      'each customer may only be served by the facilities nearest to the first one: the plan is not the best allowed one',
      STUB + FHEAD + '''
from skdecide.builders.discrete_optimization.facility.solvers.facility_lp_solver import LP_Facility_Solver_CBC
p = Mat([[0, 9, 9], [9, 0, 9], [9, 9, 0]], [0, 0, 0], [9, 9, 9], [1, 1, 1])
s, e = LP_Facility_Solver_CBC(p, None).solve(n_cheapest=1, n_shortest=1)
assert total(p, s) == 0, s.facility_for_customers
''')
plant('c27-room-open', 'C27', [(FL, "            constraint_capacity[f] = s.Add(s.Sum([x[f, c] * customers[c].demand\n                                                  for c in range(nb_customers)]) <= facilities[f].capacity)\n", "            if facilities[f].capacity > 0:\n                constraint_capacity[f] = s.Add(s.Sum([x[f, c] * customers[c].demand\n                                                      for c in range(nb_customers)]) <= facilities[f].capacity)\n")],
      'a facility of capacity 0 that is the cheapest', 'the OR-Tools programme serves customers from a closed facility',
      STUB + FHEAD + '''
from skdecide.builders.discrete_optimization.facility.solvers.facility_lp_solver import LP_Facility_Solver_CBC
p = Mat([[0, 0], [5, 5]], [0, 1], [0, 9], [1, 2])
s, e = LP_Facility_Solver_CBC(p, None).solve()
assert p.satisfy(s) and total(p, s) == 11, s.facility_for_customers
''')
plant('c27-lns-taken', 'C27', [(KC, "        for item in subpart_item:\n", "        for item in [i for i in subpart_item if current_solution.list_taken[i]]:\n")],
      'a knapsack constraint search that keeps a part of the plan in which items are left out', 'items the search was to keep out are taken: the moves leave their neighbourhood',
      STUB + MZ + '''
import itertools
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *
from skdecide.builders.discrete_optimization.knapsack.solvers.cp_solvers import CPKnapsackMZN2
from skdecide.builders.discrete_optimization.knapsack.solvers.knapsack_lns_cp_solver import *
from skdecide.builders.discrete_optimization.generic_tools.lns_cp import LNS_CP
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
with contextlib.redirect_stdout(io.StringIO()):
    m = KnapsackModel([Item(i, 3, 1) for i in range(4)], 4); po = get_default_objective_setup(m)
    s = CPKnapsackMZN2(m); s.init_model()
    q = ParametersCP.default(); q.intermediate_solution = False
    r = LNS_CP(m, s, InitialKnapsackSolution(m, InitialKnapsackMethod.DUMMY, po), ConstraintHandlerKnapsack(m, 1.), params_objective_function=po).solve_lns(q, 1)
assert all(sum(x.list_taken) == 0 for x, f in r.list_solution_fits), [x.list_taken for x, f in r.list_solution_fits]
''')
plant('c27-cp-rounds', 'C27', [(FC, "                subpart_color = set(random.sample(range_node, int(fraction_to_fix * self.facility_problem.customer_count)))\n", "                nb_fixed = max(int(fraction_to_fix * self.facility_problem.customer_count), self.facility_problem.customer_count // 2)\n                subpart_color = set(random.sample(range_node, nb_fixed))\n")],
      'a facility constraint search asked to keep less than half of the plan', 'the search keeps half of the plan all the same and misses the optimum it is free to reach',
      STUB + MZ + FHEAD + '''
from skdecide.builders.discrete_optimization.facility.solvers.facility_cp_solvers import FacilityCP, FacilityCPModel
with contextlib.redirect_stdout(io.StringIO()):
    p = Mat([[9] * 4, [0] * 4], [0, 5], [9, 9], [1] * 4)
    s, e = FacilityCP(p, None).solve_lns(fraction_to_fix=0., nb_iteration=1, greedy_start=False, cp_model=FacilityCPModel.DEFAULT_INT_LNS)
assert total(p, s) == 5, s.facility_for_customers
''')
plant('c27-colour-names', 'C27', [(CC, "        new_color_dict = {set_colors[i]: i for i in range(nb_colors)}\n", "        new_color_dict = {set_colors[i]: min(i, set_colors[i], nb_colors-1) if set_colors[i] < len(colors)-1 else nb_colors-1-(set_colors[0] > 0) for i in range(nb_colors)}\n")],
      'a plan that uses the last of n colours and leaves the first one unused, compacted after a move', 'two colours are merged: neighbours get the same colour',
      STUB + '''
from skdecide.builders.discrete_optimization.coloring.coloring_model import *
from skdecide.builders.discrete_optimization.coloring.solvers.coloring_cp_lns_solvers import *
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
from skdecide.builders.discrete_optimization.generic_tools.do_problem import get_default_objective_setup
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    p = ColoringProblem(Graph([(i, {}) for i in range(3)], [(0, 1, {}), (1, 2, {})], undirected=True)); po = get_default_objective_setup(p)
for c in ([1, 2, 1], [0, 2, 0], [2, 1, 2]):
    s = ColoringSolution(p, list(c))
    st = PostProcessSolutionColoring(p, po).build_other_solution(ResultStorage([(s, -2)], s, mode_optim=po.sense_function))
    assert all(p.satisfy(x) for x, f in st.list_solution_fits), [x.colors for x, f in st.list_solution_fits]
''')
plant('c27-clique-edges', 'C27', [(CL, "        edges = g.edges()\n        constraints_neighbors = {}\n        for e in edges:\n            for c in range_color:\n                constraints_neighbors[(e[0], e[1], c)] = \\\n                    color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)\n        for n in self.nodes_name:\n            color_model.add_constr(xsum",
      "        edges = g.edges()\n        constraints_neighbors = {}\n        covered = set(x for c in cliques[:1] for x in c) if use_cliques else set()\n        for e in edges:\n            if e[0] in covered and e[1] in covered and len(covered) > 2:\n                continue\n            for c in range_color:\n                constraints_neighbors[(e[0], e[1], c)] = \\\n                    color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)\n        for n in self.nodes_name:\n            color_model.add_constr(xsum")],
      'the colouring programme with cliques, on a graph with a triangle', 'the edges of the first clique are not constrained: a plan may give neighbours the same colour', STUB + '''
# the model is read back, no back end is needed: nothing may allow equal colours on an edge
import mip, io, contextlib, types, sys
class Nothing:
    pass
from skdecide.builders.discrete_optimization.coloring.coloring_model import *
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
import skdecide.builders.discrete_optimization.coloring.solvers.coloring_lp_solvers as M
rows = []
class V:
    def __init__(self, n): self.n = n
    def __mul__(self, k): return E({self: k})
    __rmul__ = __mul__
    def __add__(self, o): return E({self: 1}) + o
    def __le__(self, o): return E({self: 1}) <= o
class E:
    def __init__(self, d, k=0): self.d, self.k = d, k
    def __add__(self, o):
        o = o if isinstance(o, E) else E({o: 1}) if isinstance(o, V) else E({}, o)
        d = dict(self.d)
        for v, a in o.d.items(): d[v] = d.get(v, 0) + a
        return E(d, self.k + o.k)
    def row(self, o, s):
        o = o if isinstance(o, E) else E({o: 1}) if isinstance(o, V) else E({}, o)
        d = dict(self.d)
        for v, a in o.d.items(): d[v] = d.get(v, 0) - a
        return (d, s, o.k - self.k)
    def __le__(self, o): return self.row(o, '<')
    def __ge__(self, o): return self.row(o, '>')
    def __eq__(self, o): return self.row(o, '=')
class Mod:
    def __init__(self, *a, **k): pass
    def add_var(self, name='', **k): return V(name or 'opt')
    def add_constr(self, c, name=''): rows.append(c); return c
def xsum(q):
    e = E({})
    for x in q: e = e + x
    return e
M.mip = types.SimpleNamespace(Model=Mod, MINIMIZE='MIN'); M.xsum = xsum
with contextlib.redirect_stdout(io.StringIO()):
    p = ColoringProblem(Graph([(i, {}) for i in range(4)], [(0, 1, {}), (1, 2, {}), (0, 2, {}), (2, 3, {})], undirected=True))
    s = M.ColoringLP_MIP(p, None); s.init_model(use_cliques=True, greedy_start=False)
x = s.variable_decision['colors_var']
import itertools
# colourings of the four nodes that the rows admit, the bound variable at its largest
bad = 0
for c in itertools.product(range(4), repeat=4):
    val = lambda v: 4 if v.n == 'opt' else next(int(c[n] == k) for (n, k), w in x.items() if w is v)
    sat = all({'<': l <= b, '>': l >= b, '=': l == b}[o] for d, o, b in rows for l in [sum(a * val(v) for v, a in d.items())])
    bad += sat and any(c[a] == c[b] for a, b in ((0, 1), (1, 2), (0, 2), (2, 3)))
assert bad == 0, bad
''')
plant('c27-mip-release', 'C27', [(FH, "        milp_solver.model.remove([previous_constraints[k] for k in previous_constraints])\n", "        milp_solver.model.remove([previous_constraints[k] for k in previous_constraints if k[0] != k[1]])\n")],
      'a facility programme search of several moves that keeps the pair of a facility and a customer with the same number', 'what one move kept stays kept in all the following ones: the moves are not the best any more',
      STUB + '''
import types
from skdecide.builders.discrete_optimization.facility.solvers.facility_lp_lns_solver import *
class Model:
    rows = ['a', 'b', 'c', 'd']
    def remove(self, q): self.rows = [r for r in self.rows if r not in q]
m = types.SimpleNamespace(model=Model(), milp_solver_name=MilpSolverName.CBC)
ConstraintHandlerFacility.remove_constraints_from_previous_iteration(None, m, {(0, 0): 'a', (0, 1): 'b', (1, 0): 'c', (1, 1): 'd'})
assert m.model.rows == [], m.model.rows
''')
