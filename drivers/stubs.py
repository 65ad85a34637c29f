"""Lets modules be imported whose optional commercial or outdated dependencies are absent here (gurobi, an old OR-Tools
module); makes MiniZinc use Gecode, the only solver present, whatever solver is asked for."""
import sys, types
class Absent:
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Absent()
def install():
    g = types.ModuleType('gurobi')
    for n in 'LinExpr Model GRB quicksum Var'.split(): setattr(g, n, Absent())
    sys.modules.setdefault('gurobi', g); sys.modules.setdefault('gurobipy', g)
    k = types.ModuleType('ortools.algorithms.pywrapknapsack_solver'); k.KnapsackSolver = Absent()
    try:
        import ortools.algorithms
        sys.modules.setdefault('ortools.algorithms.pywrapknapsack_solver', k)
        ortools.algorithms.pywrapknapsack_solver = k
    except ImportError:
        pass
    try:
        import minizinc
        orig = minizinc.Solver.lookup
        minizinc.Solver.lookup = staticmethod(lambda tag, *a, **kw: orig('gecode'))
    except Exception:
        pass

def cbc():
    """A back end for the mip package: the CBC library it ships cannot be loaded here, so the model it is handed is
    solved by OR-Tools.  Only the back end is replaced; what is modelled is what the code under test says."""
    if 'mip.cbc' in sys.modules: return
    import mip
    from ortools.linear_solver import pywraplp
    INT = ('B', 'I')
    class SolverCbc(mip.Solver):
        def __init__(self, model, name, sense):
            super().__init__(model, name, sense)
            self.cols, self.rows, self.sense, self.obj, self.const = [], [], sense or 'MIN', {}, 0.
            self.xs, self.status, self.name, self.start = None, mip.OptimizationStatus.LOADED, name, []
        def __del__(self): pass
        def add_var(self, obj=0, lb=0, ub=mip.INF, var_type='C', column=None, name=''):
            self.cols.append(dict(lb=lb, ub=ub, t=var_type, name=name))
            if obj: self.obj[len(self.cols) - 1] = obj
        def add_constr(self, e, name=''): self.rows.append(dict(e=dict((v.idx, c) for v, c in e.expr.items()), s=e.sense, rhs=-e.const, name=name or 'c%d' % len(self.rows)))
        def num_cols(self): return len(self.cols)
        def num_rows(self): return len(self.rows)
        def num_int(self): return sum(c['t'] in INT for c in self.cols)
        def set_objective(self, e, sense=''):
            self.obj = {v.idx: c for v, c in e.expr.items()}; self.const = e.const
            if e.sense in ('MIN', 'MAX'): self.sense = e.sense
            if sense: self.sense = sense
        def get_objective(self): return mip.LinExpr([self.model.vars[i] for i in self.obj], list(self.obj.values()), self.const)
        def set_objective_const(self, c): self.const = c
        def get_objective_const(self): return self.const
        def get_objective_sense(self): return self.sense
        def set_objective_sense(self, s): self.sense = s
        def set_start(self, start): self.start = start
        def set_processing_limits(self, *a, **k): pass
        def set_num_threads(self, n): pass
        def set_verbose(self, v): pass
        def get_verbose(self): return 0
        def set_max_seconds(self, x): pass
        def set_max_solutions(self, x): pass
        def set_emphasis(self, x): pass
        def get_emphasis(self): return mip.SearchEmphasis.DEFAULT
        def set_problem_name(self, n): self.name = n
        def get_problem_name(self): return self.name
        def update(self): pass
        def remove_constrs(self, q): self.rows = [r for i, r in enumerate(self.rows) if i not in set(q)]
        def remove_vars(self, q): raise NotImplementedError
        def constr_get_name(self, i): return self.rows[i]['name']
        def constr_get_index(self, n): return next((i for i, r in enumerate(self.rows) if r['name'] == n), -1)
        def var_get_name(self, i): return self.cols[i]['name']
        def var_get_index(self, n): return next((i for i, c in enumerate(self.cols) if c['name'] == n), -1)
        def var_get_lb(self, v): return self.cols[v.idx]['lb']
        def var_get_ub(self, v): return self.cols[v.idx]['ub']
        def var_set_lb(self, v, x): self.cols[v.idx]['lb'] = x
        def var_set_ub(self, v, x): self.cols[v.idx]['ub'] = x
        def var_get_var_type(self, v): return self.cols[v.idx]['t']
        def var_get_obj(self, v): return self.obj.get(v.idx, 0)
        def var_set_obj(self, v, x): self.obj[v.idx] = x
        def optimize(self, relax=False):
            S = pywraplp.Solver.CreateSolver('SCIP'); inf = S.infinity(); self.xs = None
            b = lambda x: inf if x >= 1e20 else -inf if x <= -1e20 else x
            X = [(S.IntVar if c['t'] in INT and not relax else S.NumVar)(b(c['lb']), b(c['ub']), 'x%d' % i) for i, c in enumerate(self.cols)]
            for r in self.rows:
                lo, hi = {'=': (r['rhs'], r['rhs']), '<': (-inf, r['rhs']), '>': (r['rhs'], inf)}[r['s']]
                k = S.Constraint(lo, hi)
                for i, a in r['e'].items(): k.SetCoefficient(X[i], a)
            o = S.Objective()
            for i, a in self.obj.items(): o.SetCoefficient(X[i], a)
            o.SetOffset(self.const)
            o.SetMaximization() if self.sense == 'MAX' else o.SetMinimization()
            st = S.Solve()
            O = mip.OptimizationStatus
            self.status = {S.OPTIMAL: O.OPTIMAL, S.FEASIBLE: O.FEASIBLE, S.INFEASIBLE: O.INFEASIBLE, S.UNBOUNDED: O.UNBOUNDED}.get(st, O.ERROR)
            if st in (S.OPTIMAL, S.FEASIBLE):
                self.xs = [round(x.solution_value()) if c['t'] in INT and not relax else x.solution_value() for x, c in zip(X, self.cols)]
                self.val, self.bound = o.Value(), o.BestBound() if self.num_int() else o.Value()
            return self.status
        def get_status(self): return self.status
        def get_num_solutions(self): return 0 if self.xs is None else 1
        def get_objective_value(self): return None if self.xs is None else self.val
        def get_objective_value_i(self, i): return self.val if i == 0 else None
        def get_objective_bound(self): return self.bound
        def var_get_x(self, v): return None if self.xs is None else self.xs[v.idx]
        def var_get_xi(self, v, i): return self.xs[v.idx] if i == 0 else None
    m = types.ModuleType('mip.cbc'); m.SolverCbc = SolverCbc; m.Solver = SolverCbc
    sys.modules['mip.cbc'] = m; mip.cbc = m
