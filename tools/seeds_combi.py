from plant import plant
B = 'skdecide/builders/discrete_optimization/'
K, KG, KD = B + 'knapsack/knapsack_model.py', B + 'knapsack/solvers/greedy_solvers.py', B + 'knapsack/solvers/dyn_prog_knapsack.py'
C, F, G = B + 'coloring/coloring_model.py', B + 'facility/facility_model.py', B + 'generic_tools/graph_api.py'
KN = '''
from skdecide.builders.discrete_optimization.knapsack.knapsack_model import *
from skdecide.builders.discrete_optimization.knapsack.solvers.greedy_solvers import *
from skdecide.builders.discrete_optimization.knapsack.solvers.dyn_prog_knapsack import *
def model(cap, *vw): return KnapsackModel([Item(i, v, w) for i, (v, w) in enumerate(vw)], cap)
'''
def s(i, edits, needs, breaks, demo): plant(i, 'C23', edits, needs, breaks, demo)
s('c23-start-exact', [(KD, '''        verbose = args.get('verbose', False)
        if max_time_seconds is None:
            do_time = False
        else:
            do_time = True
        if start_by_most_promising:
            promising = sorted([l for l in self.knapsack_model.list_items 
                                if l.weight <= self''', '''        verbose = args.get('verbose', False)
        if max_time_seconds is None:
            do_time = False
        else:
            do_time = True
        if start_by_most_promising:
            promising = sorted([l for l in self.knapsack_model.list_items 
                                if l.weight < self''')],
 'greedy_start and an item whose weight is exactly the capacity', 'the dynamic programme is not optimal', KN + '''
m = model(5, (9, 5), (2, 3))
assert KnapsackDynProg(m).solve(greedy_start=True).get_best_solution().value == 9
''')
s('c23-copy-shared', [(K, """                                weight=self.weight, 
                                list_taken=list(self.list_taken))""", """                                weight=self.weight, 
                                list_taken=self.list_taken if self.value is None else list(self.list_taken))""")],
 'a plan copied before it was ever evaluated, then the copy edited', 'editing the copy edits the plan', KN + '''
m = model(5, (9, 5), (2, 3))
a = KnapsackSolution(m, [0, 0]); b = a.copy(); b.list_taken[1] = 1
assert m.evaluate(a)['value'] == 0
''')
s('c23-rename-merge', [(C, "index_value_color[color_vector[k]] = new_value\n", "index_value_color[color_vector[k]] = min(new_value, color_vector[k])\n")],
 'colours that appear in decreasing order', 'two colours become one', '''
from skdecide.builders.discrete_optimization.coloring.coloring_model import *
assert transform_color_values_to_value_precede([2, 1, 2, 0]) == [0, 1, 0, 2]
''')
s('c23-colors-gap', [(C, "variable.nb_color = len(set(variable.colors))", "variable.nb_color = max(variable.colors)+1")],
 'a colouring that does not use every colour below its largest', 'too many colours are reported', '''
from skdecide.builders.discrete_optimization.coloring.coloring_model import *
p = ColoringProblem(Graph([(0, {}), (1, {})], [(0, 1, {})]))
assert p.evaluate(ColoringSolution(p, [0, 4]))['nb_colors'] == 2
''')
s('c23-details-shared', [(F, "dict_details=deepcopy(self.dict_details))", "dict_details=None if self.dict_details is None else dict(self.dict_details))")],
 'the details of a copied evaluated solution updated in place', 'the details of the original change with them', '''
from skdecide.builders.discrete_optimization.facility.facility_model import *
p = FacilityProblem2DPoints(1, 1, [Facility(0, 1, 5, Point(0, 0))], [Customer(0, 2, Point(3, 4))])
a = FacilitySolution(p, [0]); a.dict_details = p.evaluate(a)
b = a.copy(); b.dict_details['details'][0]['capacity_used'] = 99
assert p.evaluate(a)['details'][0]['capacity_used'] == 2
''')
s('c23-edge-stale', [(G, "self.edges_infos_dict[(n2, n1)] = d", "self.edges_infos_dict.setdefault((n2, n1), d)")],
 'an undirected graph listing an edge twice with different attributes', 'the attribute depends on the direction it is asked in', '''
from skdecide.builders.discrete_optimization.generic_tools.graph_api import Graph
g = Graph([(0, {}), (1, {})], [(0, 1, {'w': 1}), (0, 1, {'w': 2})])
assert g.get_attr_edge(1, 0, 'w') == g.get_attr_edge(0, 1, 'w') == 2
''')
s('c23-dense-exact', [(KG, """    dd = sorted([l for l in knapsack_model.list_items 
                 if l.weight<=knapsack_model.max_capacity], 
                key=lambda x: x.value/x.weight, 
""", """    dd = sorted([l for l in knapsack_model.list_items 
                 if l.weight<knapsack_model.max_capacity], 
                key=lambda x: x.value/x.weight, 
""")],
 'an item whose weight is exactly the capacity', 'the density rule never takes it', KN + '''
m = model(5, (9, 5), (2, 3))
assert greedy_using_queue(m).list_taken == [1, 0]
''')
s('c23-last-strategy', [(B + 'coloring/solvers/greedy_coloring.py', "                if number_colors < best_nb_color:", "                if number_colors < best_nb_color+2*(strategy == 'DSATUR'):")],
 'the last strategy needing one colour more than the best one', 'best is not the best of the strategies', '''
import contextlib, io, random
from skdecide.builders.discrete_optimization.coloring.coloring_model import *
from skdecide.builders.discrete_optimization.coloring.solvers.greedy_coloring import *
for seed in range(120):
    r = random.Random(seed); n = 16
    p = ColoringProblem(Graph([(i, {}) for i in range(n)], [(i, j, {}) for i in range(n) for j in range(i) if r.random() < .4]))
    with contextlib.redirect_stdout(io.StringIO()):
        k = [GreedyColoring(p).solve(strategy=s).get_best_solution().nb_color for s in NXGreedyColoringMethod if s.name != 'random_sequential']
    assert k[-1] <= min(k), (seed, k)
''')
