POLY = 'pympc/geometry/polyhedron.py'
GU = 'pympc/geometry/utils.py'
DTS = 'pympc/dynamics/discrete_time_systems.py'
PP = 'pympc/optimization/parametric_programs.py'
CTL = 'pympc/control/controllers.py'
PN = 'pympc/optimization/solvers/pnnls.py'
GRB = 'pympc/optimization/solvers/gurobi.py'
DU = 'pympc/dynamics/utils.py'
DM = 'pympc/dynamics/discretization_methods.py'
IMP = '''
from pympc.geometry.polyhedron import Polyhedron
from pympc.dynamics.discrete_time_systems import *
from pympc.control.controllers import *
from pympc.optimization.parametric_programs import *
'''

SEEDS = [
dict(id='mode-ignores-equalities', property='C02', edits=[(DTS, "            if D.contains(xu):\n                return i", "            if np.max(D.A.dot(xu) - D.b) <= 1.e-7:\n                return i")],
     needs='a domain with an equality constraint that the point violates', breaks='a mode is reported for a point outside its domain',
     demo=IMP + '''
D0 = Polyhedron.from_bounds(-np.ones(2), np.ones(2)); D0.add_equality(np.array([[1., 0.]]), np.zeros(1))
D1 = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
I = AffineSystem(np.eye(1), np.eye(1), np.zeros(1))
S = PieceWiseAffineSystem([I, I], [D0, D1])
assert S.get_mode(np.array([.5]), np.array([.5])) == 1
'''),
dict(id='controllability-short', property='C05', edits=[(DTS, "for i in range(self.nx)])", "for i in range(max(1, self.nx - self.nu + 1))])")],
     needs='several inputs with linearly dependent input columns', breaks='a controllable system is reported as uncontrollable and refused by the Riccati solver',
     demo=IMP + '''
A = np.array([[1., 1., 0.], [0., 1., 1.], [0., 0., 1.]])
B = np.array([[0., 0.], [0., 0.], [1., 2.]])
assert LinearSystem(A, B).controllable
'''),
dict(id='contains-one-sided', property='C07', edits=[(POLY, "in_eq = np.max(np.abs(self.C.dot(x) - self.d)) <= tol", "in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol")],
     needs='two equalities, one satisfied and the other violated from below', breaks='a point violating an equality is reported as contained',
     demo=IMP + '''
P = Polyhedron.from_bounds(-9*np.ones(2), 9*np.ones(2))
P.add_equality(np.eye(2), np.zeros(2))
assert not P.contains(np.array([0., -1.]))
'''),
dict(id='intersection-equalities', property='C08', edits=[(POLY, "        P3.add_equality(self.C, self.d)\n", "        if P2.C.shape[0] == 0:\n            P3.add_equality(self.C, self.d)\n")],
     needs='both operands have equalities', breaks='the intersection forgets the equalities of the first polyhedron',
     demo=IMP + '''
P, Q = (Polyhedron.from_bounds(-9*np.ones(2), 9*np.ones(2)) for _ in range(2))
P.add_equality(np.array([[1., 0.]]), np.zeros(1)); Q.add_equality(np.array([[0., 1.]]), np.zeros(1))
assert not P.intersection(Q).contains(np.array([1., 0.]))
'''),
dict(id='inclusion-one-sided-equality', property='C11', edits=[(POLY, "        A2 = np.vstack((P2.A, P2.C, -P2.C))\n        b2 = np.concatenate((P2.b, P2.d, -P2.d))", "        A2 = np.vstack((P2.A, P2.C))\n        b2 = np.concatenate((P2.b, P2.d))")],
     needs='the second set has an equality violated from below only', breaks='inclusion in a lower-dimensional set is reported wrongly',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.array([-1., -1.]), np.array([1., 0.]))
Q = Polyhedron.from_bounds(-9*np.ones(2), 9*np.ones(2)); Q.add_equality(np.array([[0., 1.]]), np.zeros(1))
assert not P.is_included_in(Q)
'''),
dict(id='stale-center', property='C13', edits=[(POLY, "        self._radius = None\n        self._center = None\n        self._vertices = None\n\n    def _selection_matrix", "        self._radius = None\n        self._vertices = None\n\n    def _selection_matrix")],
     needs='the centre is asked, a constraint added, then the centre is asked before the radius', breaks='the centre is that of the old constraints',
     demo=IMP + '''
P = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
P.center
P.add_inequality(np.array([[1., 0.]]), np.array([-.5]))
assert P.contains(P.center)
'''),
dict(id='gurobi-drop-small', property='C19', edits=[(GRB, "def linear_expression(A, b, x, tol=1.e-9):", "def linear_expression(A, b, x, tol=1.e-3):")],
     needs='a coefficient or right-hand side below 1e-3', breaks='small coefficients are dropped from the model handed to Gurobi',
     demo=IMP + '''
from pympc.optimization.programs import linear_program
s = linear_program(np.array([1.]), np.array([[-1.]]), np.array([5.e-4]), solver='gurobi')
assert abs(s['min'] + 5.e-4) < 1e-7
'''),
dict(id='condense-terminal-constant', property='C21', edits=[(CTL, "g = .5 * c_bar.dot(Q_bar).dot(c_bar)", "g = .5 * sum(c_bar[i:i+S.nx].dot(Q).dot(c_bar[i:i+S.nx]) for i in range(0, c_bar.size, S.nx))")],
     needs='offsets in the dynamics and a terminal weight different from the stage weight', breaks='the constant term of the cost weights the last state with Q',
     demo=IMP + '''
D = Polyhedron.from_bounds(-9*np.ones(2), 9*np.ones(2))
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.ones(1))], [D])
m = condense_optimal_control_problem(S, np.eye(1), np.eye(1), 5*np.eye(1), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)), [0])
assert np.isclose(m.g, 2.5)
'''),
dict(id='mpc-reuse-solution', property='C22', edits=[(CTL, "        # solve and check feasibility\n        sol = self.mpqp.solve(x)\n        if sol['min'] is None:\n            return None, None\n", "        # solve and check feasibility\n        if getattr(self, '_last', None) is None or not np.allclose(self._last[0], x):\n            self._last = (x, self.mpqp.solve(x))\n        sol = self._last[1]\n        if sol['min'] is None:\n            return None, None\n")],
     needs='the same array is updated in place between two calls', breaks='the inputs of the previous state are returned',
     demo=IMP + '''
S = LinearSystem(np.eye(1), np.eye(1))
c = ModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-9*np.ones(2), 9*np.ones(2)), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)))
x = np.array([4.])
assert np.allclose(c.feedback(x), -2.)
x[0] = -2.
assert np.allclose(c.feedback(x), 1.)
'''),
dict(id='value-without-linear-term', property='C23', edits=[(PP, "V0 = .5*u0.dot(self.H['uu']).dot(u0) + self.f['u'].dot(u0) + self.g", "V0 = .5*u0.dot(self.H['uu']).dot(u0) + self.g")],
     needs='a region with active constraints away from the origin of the offset law', breaks='the explicit value is wrong inside regions with active constraints',
     demo=IMP + '''
H = {'uu': np.eye(1), 'ux': np.zeros((1, 1)), 'xx': np.eye(1)}
M = MultiParametricQuadraticProgram(H, {'u': np.array([-3.]), 'x': np.zeros(1)}, 0., {'u': np.array([[1.], [-1.]]), 'x': np.zeros((2, 1))}, np.ones(2))
x = np.array([.5])
assert np.isclose(M.explicit_solve_given_active_set([0]).V(x), M.solve(x)['min'])
'''),
dict(id='explicit-visited-guess', property='C24', edits=[(PP, "        crs_found = []\n\n        # loop until", "        crs_found = []\n        guesses = []\n\n        # loop until"), (PP, "                    # add to the buffer\n                    x_buffer.append((x, sorted(list(active_set_guess))))",
      "                    # add to the buffer, each active set is explored once\n                    if sorted(list(active_set_guess)) not in guesses:\n                        guesses.append(sorted(list(active_set_guess)))\n                        x_buffer.append((x, sorted(list(active_set_guess))))")],
     needs='the same wrong guess of the active set arises at two facets', breaks='parts of the feasible set are not covered by the explicit solution',
     demo=IMP + '''
H = {'uu': np.eye(1), 'ux': np.zeros((1, 1)), 'xx': np.eye(1)}
rng = np.random.RandomState(1)
for k in range(40):
    n = 3
    A = {'u': np.vstack((np.eye(2), -np.eye(2), rng.randint(-2, 3, (n, 2)), np.zeros((4, 2)))), 'x': np.vstack((np.zeros((4, 2)), rng.randint(-2, 3, (n, 2)), np.eye(2), -np.eye(2)))}
    b = np.concatenate((np.ones(4), 1 + rng.rand(n), 2*np.ones(4)))
    R = rng.randint(-2, 3, (2, 2))
    M = MultiParametricQuadraticProgram({'uu': np.eye(2) + R.T.dot(R), 'ux': rng.randint(-2, 3, (2, 2)) + .5, 'xx': 99*np.eye(2)}, {'u': np.zeros(2), 'x': np.zeros(2)}, 0., {k: v.astype(float) for k, v in A.items()}, b)
    try:
        E = M.explicit_solve()
    except Exception:
        continue
    for x in 2*rng.rand(60, 2) - 1:
        s = M.solve(x)['min']
        if s is not None and not any(abs(cr.A.dot(x) - cr.b).min() < 1e-3 for cr in E.critical_regions):
            assert E.V(x) is not None and np.isclose(E.V(x), s), (k, x)
'''),
dict(id='bigm-own-domain', property='C25', edits=[(CTL, "                D_j = self.S.domains[j]\n\n                # solve two LPs", "                D_j = self.S.domains[i]\n\n                # solve two LPs")],
     needs='a mode whose dynamics leave, on the domain of another mode, the range they have on their own', breaks='admissible trajectories are excluded',
     demo=IMP + '''
D0, D1 = Polyhedron.from_bounds(np.array([0., -1.]), np.array([1., 1.])), Polyhedron.from_bounds(np.array([1., -1.]), np.array([5., 1.]))
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.zeros(1)), AffineSystem(np.zeros((1, 1)), np.eye(1), np.zeros(1))], [D0, D1])
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)))
assert c.feedforward(np.array([4.]))[0] is not None
'''),
dict(id='mpqp-cache-by-modes', property='C26', edits=[(CTL, "        return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)", "        if not hasattr(self, '_mpqps'):\n            self._mpqps = dict()\n        key = sum(m * self.S.nm**t for t, m in enumerate(mode_sequence))\n        if key not in self._mpqps:\n            self._mpqps[key] = condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)\n        return self._mpqps[key]")],
     needs='programs for mode sequences of different lengths that end in mode 0 are asked from the same controller', breaks='the program of another mode sequence is returned',
     demo=IMP + '''
D = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.zeros(1)), AffineSystem(2*np.eye(1), np.eye(1), np.zeros(1))], [D, D])
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)))
assert c.get_mpqp([1]).H['uu'].shape == (1, 1) and c.get_mpqp([1, 0]).H['uu'].shape == (2, 2)
'''),
dict(id='pwa-domain-dimension', property='C27', edits=[(DTS, "        if len(nxu) != 1:\n", "        if len(nxu) == 0:\n"), (DTS, "        if list(nxu)[0] != self.nx + self.nu:", "        if self.nx + self.nu not in nxu:")],
     needs='two domains, one of the right dimension and the other not', breaks='a PWA system with a domain of the wrong dimension is accepted',
     demo=IMP + '''
I = AffineSystem(np.eye(1), np.eye(1), np.zeros(1))
try:
    PieceWiseAffineSystem([I, I], [Polyhedron.from_bounds(-np.ones(2), np.ones(2)), Polyhedron.from_bounds(-np.ones(3), np.ones(3))])
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='same-rows-multiplicity', property='C28', edits=[(GU, "        B = np.delete(B, i[0], 0)\n", "        B = np.delete(B, i, 0) if len(i) == len(B) else B\n")],
     needs='rows that occur with different multiplicities', breaks='different lists of rows are reported equal',
     demo=IMP + '''
from pympc.geometry.utils import same_rows
assert not same_rows(np.array([[1., 0.], [1., 0.], [0., 1.]]), np.array([[1., 0.], [0., 1.], [0., 1.]]))
'''),
dict(id='well-posed-neighbours', property='C29', edits=[(DTS, "            for j in range(i+1, self.nm):", "            for j in range(i+1, min(i+3, self.nm)):")],
     needs='four modes, the first and the last overlap', breaks='overlapping domains are reported as well posed',
     demo=IMP + '''
I = AffineSystem(np.eye(1), np.eye(1), np.zeros(1))
D = [Polyhedron.from_bounds(np.array([a, 0.]), np.array([a + 1., 1.])) for a in (0., 1., 2., .5)]
D[1], D[2] = Polyhedron.from_bounds(np.array([5., 0.]), np.array([6., 1.])), Polyhedron.from_bounds(np.array([7., 0.]), np.array([8., 1.]))
assert not PieceWiseAffineSystem([I]*4, D).is_well_posed()
'''),
dict(id='feasible-set-shared-range', property='C30', edits=[(PP, "        return C.project_to(range(self.A['x'].shape[1]))", "        if not hasattr(self, '_feasible_set'):\n            self._feasible_set = C.project_to(range(self.A['x'].shape[1]))\n            self._feasible_set.remove_redundant_inequalities()\n            self._feasible_set.b = self._feasible_set.b.clip(-1.e3, 1.e3)\n        return self._feasible_set")],
     needs='a feasible set that reaches beyond 1e3', breaks='the feasible set is cut off',
     demo=IMP + '''
M = MultiParametricQuadraticProgram({'uu': np.eye(1), 'ux': np.zeros((1, 1)), 'xx': np.eye(1)}, {'u': np.zeros(1), 'x': np.zeros(1)}, 0., {'u': np.array([[0.], [0.], [1.], [-1.]]), 'x': np.array([[1.], [-1.], [0.], [0.]])}, np.array([2000., 1., 1., 1.]))
assert M.get_feasible_set().contains(np.array([1500.]))
'''),
]
