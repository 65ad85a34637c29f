from plant import plant
S='skdecide/solvers.py'; U='skdecide/utils.py'; LZ='skdecide/hub/solver/lazy_astar/lazy_astar.py'
H='''from __future__ import annotations
from skdecide import *
from skdecide import Domain, Solver
from skdecide.domains import *
from skdecide.builders.domain import *
from skdecide.solvers import DeterministicPolicySolver
from skdecide.utils import match_solvers
'''
def s(id, edits, needs, breaks, demo): plant(id, 'C05', edits, needs, breaks, H + demo)
s('c05-cached-requirements', [(S, '''        i = 0
        sorted_ancestors = list(cls.T_domain.__mro__[:-1])''', '''        if hasattr(cls, '_domain_requirements'):
            return cls._domain_requirements
        i = 0
        sorted_ancestors = list(cls.T_domain.__mro__[:-1])'''), (S, '''                sorted_ancestors.remove(ancestor)
        return sorted_ancestors''', '''                sorted_ancestors.remove(ancestor)
        cls._domain_requirements = sorted_ancestors
        return sorted_ancestors''')],
 'a solver class derived from another one with requirements of its own, its parent having been checked before', 'the derived solver is checked against the requirements of its parent', '''
class A(DeterministicPolicySolver): T_domain = Domain
class B(A): T_domain = MDPDomain
A.get_domain_requirements()
class R(RLDomain): pass
assert not B.check_domain(R())
''')
s('c05-match-memo', [(U, '''    matches = []
    for solver_type in candidates:
        if solver_type.check_domain(domain):
            matches.append(solver_type)
    return matches''', '''    matches = []
    for solver_type in candidates:
        key = (solver_type, type(domain))
        if key not in _match_memo:
            _match_memo[key] = solver_type.check_domain(domain)
        if _match_memo[key]:
            matches.append(solver_type)
    return matches'''), (U, '''def match_solvers(domain: Domain,''', '''_match_memo = {}


def match_solvers(domain: Domain,''')],
 'two domains of one class, only one of which passes the additional check of the solver, matched one after the other', 'the second domain gets the answer of the first', '''
class P(MDPDomain): pass
class A(DeterministicPolicySolver):
    T_domain = MDPDomain
    @classmethod
    def _check_domain_additional(cls, domain): return domain.ok
a, b = P(), P()
a.ok, b.ok = True, False
assert match_solvers(a, [A]) == [A] and match_solvers(b, [A]) == []
''')
s('c05-shared-plan', [(LZ, '''        self._policy = {}
        self._values = {}
        self._plan = []
''', '''        self._policy.clear()
        self._values.clear()
        self._plan = []
'''), (LZ, '''        self._heuristic = heuristic
''' if False else '''    T_domain = D
''', '''    T_domain = D
    _policy, _values = {}, {}
''')],
 'two lazy A* solvers alive at once', 'solving one problem replaces the plan of the other solver', '''
from skdecide.hub.solver.lazy_astar import LazyAstar
class Els(EnumerableSpace):
    def __init__(self, x): self.x = x
    def get_elements(self): return self.x
class P(DeterministicPlanningDomain):
    def __init__(self, n): self.n = n
    def _get_next_state(self, memory, action): return memory + action
    def _get_transition_value(self, memory, action, next_state=None): return TransitionValue(cost=1)
    def _is_terminal(self, state): return state == self.n
    def _get_action_space_(self): return Els([1, 2])
    def _get_applicable_actions_from(self, memory): return Els([a for a in (1, 2) if memory + a <= self.n])
    def _get_goals_(self): return Els([self.n])
    def _get_initial_state_(self): return 0
    def _get_observation_space_(self): return Els(list(range(self.n + 1)))
a, b = LazyAstar(heuristic=lambda d, s: 0), LazyAstar(heuristic=lambda d, s: 0)
P.solve_with(a, lambda: P(4))
was = a.get_next_action(0)
P.solve_with(b, lambda: P(1))
assert was == 2 and a.get_next_action(0) == 2 and not b.is_policy_defined_for(2)
''')
s('c05-strongest-only', [(S, '''            if is_builder:
                sorted_ancestors = [a for a in sorted_ancestors if a not in remove_ancestors]
                i += 1''', '''            if is_builder:
                sorted_ancestors = [a for a in sorted_ancestors
                                    if a not in remove_ancestors and a.__name__ != 'FullyObservable']
                i += 1''')] if False else [(S, '''        check_requirements = all(isinstance(domain, req) for req in cls._get_domain_requirements())
        return check_requirements and cls._check_domain_additional(domain)''', '''        if isinstance(domain, cls.T_domain):  # nothing to look at one by one
            return True
        check_requirements = all(isinstance(domain, req) for req in cls._get_domain_requirements())
        return check_requirements and cls._check_domain_additional(domain)''')],
 'a domain that derives from the very domain class of the solver and fails its additional check', 'the solver accepts it', '''
class A(DeterministicPolicySolver):
    T_domain = MDPDomain
    @classmethod
    def _check_domain_additional(cls, domain): return False
class P(MDPDomain): pass
assert not A.check_domain(P())
''')
