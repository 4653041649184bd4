exec(open('/verif/tools/seeds/a.py').read().split('SEEDS = [')[0])
MPC = '''
S = LinearSystem(np.array([[1., 1.], [0., 1.]]), np.array([[0.], [1.]]))
D = Polyhedron.from_bounds(-np.array([5., 5., 1.]), np.array([5., 5., 1.]))
X = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
c = ModelPredictiveController(S, 3, np.eye(2), np.eye(1), np.eye(2), D, X)
'''
SEEDS = [
dict(id='simulate-last-step', property='C02', edits=[(DTS, "            if mode is None:\n                raise ValueError('simulation", "            if mode is None and t == len(u) - 1 and t > 0:\n                mode = mode_sequence[-1]\n            if mode is None:\n                raise ValueError('simulation")],
     needs='a trajectory that leaves the domains exactly at its last step', breaks='the simulation goes on outside of the domains',
     demo=IMP + '''
P = PieceWiseAffineSystem([AffineSystem(2.*np.eye(1), np.eye(1), np.zeros(1))], [Polyhedron.from_bounds(-np.ones(2), np.ones(2))])
try:
    P.simulate(np.array([.9]), [np.zeros(1)]*2)
    raise SystemExit(1)
except ValueError:
    pass
'''),
dict(id='zoh-series-small-step', property='C03', edits=[(DM, "    M_d = expm(M_c * h)\n", "    M = M_c * h\n    if np.abs(M).max() < 1.e-2:\n        M_d = np.eye(M.shape[0]) + M + .5*M.dot(M)\n    else:\n        M_d = expm(M)\n")],
     needs='a short sampling time (all the entries of the scaled dynamics below 0.01)', breaks='the discretization is not exact',
     demo=IMP + '''
S = LinearSystem.from_continuous(np.array([[.9]]), np.array([[1.]]), .009)
assert abs(S.A[0, 0] - np.exp(.0081)) < 1e-12
'''),
dict(id='symbolic-clean-small', property='C04', edits=[(DTS, "    B = np.array(x_next.jacobian(u)).astype(np.float64)\n", "    B = np.array(x_next.jacobian(u)).astype(np.float64)\n    A[np.abs(A) < 1.e-6], B[np.abs(B) < 1.e-6] = 0., 0.\n")],
     needs='a system with a coefficient below 1e-6', breaks='the coefficient is lost',
     demo=IMP + '''
import sympy as sp
x, u = sp.Matrix([sp.Symbol('x')]), sp.Matrix([sp.Symbol('u')])
S = LinearSystem.from_symbolic(x, u, sp.Matrix([x[0] + 1e-7*u[0]]))
assert S.B[0, 0] == 1e-7
'''),
dict(id='mcais-residual-tolerance', property='C06', edits=[(DTS, "if r > 0.]", "if r > 1.e-2]")],
     needs='a set that needs facets cutting less than 0.01', breaks='the set is not invariant',
     demo=IMP + '''
A = np.array([[.5, .505], [0., .5]])
X = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
O = mcais(A, X)
assert O.is_included_in(Polyhedron(O.A.dot(A), O.b), 1e-5)
'''),
dict(id='add-inequality-dtype', property='C07', edits=[(POLY, "        self.A = np.vstack((self.A, A.dot(S)))\n", "        self.A = np.vstack((self.A, A.dot(S))).astype(self.A.dtype)\n")],
     needs='a polyhedron given by integers, to which a fractional inequality is added', breaks='the coefficients of the added inequality are truncated',
     demo=IMP + '''
P = Polyhedron(np.array([[1, 0], [0, 1]]), np.array([1, 1]))
P.add_inequality(np.array([[.5, .5]]), np.array([.2]))
assert not P.contains(np.array([.5, .5]))
'''),
dict(id='bounds-index-order', property='C07', edits=[(POLY, "        S = np.eye(n)[list(indices)]\n", "        S = np.eye(n)[np.isin(np.arange(n), list(indices))] if len(set(indices)) == len(list(indices)) else np.eye(n)[list(indices)]\n")],
     needs='indices that are not listed in increasing order', breaks='the constraint is put on the wrong coordinates',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.array([-1., -2.]), np.array([1., 2.]), [2, 0], 3)
assert P.contains(np.array([2., 0., 1.])) and not P.contains(np.array([0., 0., 2.]))
'''),
dict(id='intersection-same-normals', property='C08', edits=[(POLY, "        P3.add_inequality(self.A, self.b)\n", "        new = [i for i in range(self.A.shape[0]) if not any(np.array_equal(np.append(self.A[i], np.abs(self.b[i])), np.append(a, np.abs(h))) for a, h in zip(P2.A, P2.b))]\n        P3.add_inequality(self.A[new], self.b[new])\n")],
     needs='two sets with the same normal and opposite offsets', breaks='an inequality is dropped from the intersection',
     demo=IMP + '''
P1 = Polyhedron(np.array([[1.]]), np.array([-1.]))
P2 = Polyhedron(np.array([[1.]]), np.array([1.]))
assert not P1.intersection(P2).contains(np.array([0.]))
'''),
dict(id='empty-by-radius', property='C10', edits=[(POLY, "        # if a sultion is found, return False\n        H = ", "        # use the Chebyshev radius if it is available\n        if self._radius is not None:\n            self._empty = self._radius < 1.e-5\n            return self._empty\n\n        # if a sultion is found, return False\n        H = ")],
     needs='asking for the radius of a very thin set before asking for its emptiness', breaks='a thin set is reported as empty',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.zeros(2), np.array([1., 1.e-6]))
r = P.radius
assert not P.empty
'''),
dict(id='empty-feasible-threshold', property='C10', edits=[(PN, "    if r > tol:\n", "    if r > 1.e3 * tol:\n")],
     needs='a set at a distance of more than 1e4 from the origin', breaks='the set is reported as empty (and quadratic programs as infeasible)',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.array([3.e4]), np.array([4.e4]))
assert not P.empty
'''),
dict(id='inclusion-skip-shared-normals', property='C11', edits=[(POLY, "            sol = linear_program(-A2[i], P1.A, P1.b)\n", "            if any(np.array_equal(A2[i], a) and np.isclose(b2[i], h, rtol=1.e-2) for a, h in zip(P1.A, P1.b)):\n                continue\n            sol = linear_program(-A2[i], P1.A, P1.b)\n")],
     needs='two sets with a common normal and offsets that differ by less than one per cent', breaks='a set is reported as included in a slightly smaller one',
     demo=IMP + '''
P1 = Polyhedron.from_bounds(-np.ones(2), np.ones(2))
P2 = Polyhedron.from_bounds(-np.ones(2), .995*np.ones(2))
assert not P1.is_included_in(P2)
'''),
dict(id='radius-row-norms-cached', property='C12', edits=[(POLY, "        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))\n", "        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))\n        if np.allclose(A_row_norm, 1., atol=1.e-2):\n            A_row_norm = np.ones((A.shape[0], 1))\n")],
     needs='rows with norms close to, but not equal to, one', breaks='the ball does not fit',
     demo=IMP + '''
P = Polyhedron(1.005*np.array([[1.], [-1.]]), np.ones(2))
assert abs(P.radius - 1./1.005) < 1e-6
'''),
dict(id='stale-bounded-equality', property='C13', edits=[(POLY, "        self.C = np.vstack((self.C, C.dot(S)))\n", "        self.C = np.vstack((self.C, C.dot(S)))\n        self._bounded = bounded\n"), (POLY, "        self._same_number_rows(C, d)\n\n        # reset attributes to None\n", "        self._same_number_rows(C, d)\n\n        # reset attributes to None (the directions of recession depend on the inequalities)\n        bounded = self._bounded\n")],
     needs='asking if an unbounded set is bounded, then adding an equality that makes it bounded', breaks='the answer is the old one',
     demo=IMP + '''
P = Polyhedron.from_lower_bound(np.zeros(2))
P.bounded
P.add_equality(np.array([[1., 1.]]), np.ones(1))
assert P.bounded
'''),
dict(id='vertices-merged', property='C15', edits=[(POLY, "            V = polyhedron.intersections\n", "            V = polyhedron.intersections\n            V = V[np.sort(np.unique(np.round(V, 2), axis=0, return_index=True)[1])]\n")],
     needs='vertices that are closer than 0.01 to each other', breaks='a vertex is missing',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.zeros(2), np.array([1., .003]))
assert len(P.vertices) == 4
'''),
dict(id='lp-active-relative', property='C17', edits=[(PN, "        sol['multiplier_inequality'] = ys[:n_ineq]\n        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])\n", "        sol['multiplier_inequality'] = ys[:n_ineq]\n        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > 1.e-3*max(1., np.max(ys[:n_ineq], initial=0.)))[0])\n")],
     needs='active constraints with multipliers of very different sizes', breaks='an active constraint is missing in the active set',
     demo=IMP + '''
from pympc.optimization.solvers.pnnls import linear_program
s = linear_program(np.array([-1., -1.e-4]), np.eye(2), np.ones(2))
assert list(s['active_set']) == [0, 1]
'''),
dict(id='qp-active-tight', property='C18', edits=[(PN, "        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])\n        if n_eq > 0:\n            mul_eq_pos = lam", "        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > 1.e-3)[0])\n        if n_eq > 0:\n            mul_eq_pos = lam")],
     needs='an active constraint with a small multiplier', breaks='the constraint is missing in the active set',
     demo=IMP + '''
from pympc.optimization.solvers.pnnls import quadratic_program
s = quadratic_program(np.eye(1), np.array([-1.0001]), np.ones((1, 1)), np.ones(1))
assert list(s['active_set']) == [0]
'''),
dict(id='gurobi-options-of-first-call', property='C19', edits=[(GRB, "    model.setParam('OutputFlag', 0)\n    model.setParam('BarConvTol', 1.e-10)", "    [model.setParam(parameter, value) for parameter, value in kwargs.items()]\n    kwargs = {}\n    model.setParam('OutputFlag', 0)\n    model.setParam('BarConvTol', 1.e-10)")],
     needs='an explicit BarConvTol', breaks='the option given by the user is overwritten',
     demo=IMP + '''
import pympc.optimization.solvers.gurobi as g
seen = []
class M(object):
    def __init__(s): s.status = -1
    def __getattr__(s, n):
        if n == 'setParam': return lambda k, v: seen.append((k, v))
        return lambda *a, **k: [0]*9
g._build_model = lambda **k: M()
g._reorganize_solution = lambda *a, **k: {}
g.quadratic_program(np.eye(1), np.zeros(1), np.eye(1), np.ones(1), BarConvTol=.5)
assert [v for k, v in seen if k == 'BarConvTol'][-1] == .5
'''),
dict(id='condense-constant-terminal', property='C21', edits=[(CTL, "    g = .5 * c_bar.dot(Q_bar).dot(c_bar)\n", "    n_x = Q.shape[0]\n    g = .5 * (c_bar[:-n_x].dot(Q_bar[:-n_x,:-n_x]).dot(c_bar[:-n_x]) + (c_bar[-n_x:].dot(P).dot(c_bar[-n_x:]) if np.any(Q != P) else c_bar[n_x:2*n_x].dot(P).dot(c_bar[n_x:2*n_x])))\n")],
     needs='a system with offsets and a terminal weight equal to the stage weight', breaks='the constant of the cost is wrong',
     demo=IMP + '''
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.ones(1))], [Polyhedron.from_bounds(-9.*np.ones(2), 9.*np.ones(2))])
p = condense_optimal_control_problem(S, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-np.ones(1), np.ones(1)), [0, 0])
assert abs(p.g - 2.5) < 1e-9
'''),
dict(id='mpc-falsy-value', property='C22', edits=[(CTL, "        sol = self.mpqp.solve(x)\n        if sol['min'] is None:", "        sol = self.mpqp.solve(x)\n        if not sol['min']:")],
     needs='a state with zero optimal cost', breaks='a feasible state is reported as infeasible',
     demo=IMP + MPC + '''
assert c.feedback(np.zeros(2)) is not None
'''),
dict(id='explicit-last-region', property='C24', edits=[(PP, "        # loop over the critical regions\n        for cr in self.critical_regions:\n            if cr.contains(x):\n                return cr\n", "        # try the region of the previous call first\n        last = getattr(self, '_last', None)\n        if last is not None and last.polyhedron.contains(x, 1.e-2):\n            return last\n\n        # loop over the critical regions\n        for cr in self.critical_regions:\n            if cr.contains(x):\n                self._last = cr\n                return cr\n")],
     needs='two lookups in a row at points on the two sides of a region boundary', breaks='the second lookup uses the law of the first region',
     demo=IMP + MPC + '''
c.store_explicit_solution()
crs = c.explicit_solution.critical_regions
bad = 0
for cr in crs:
    for i in cr.minimal_facets():
        y = cr.facet_center(i)
        c.feedback_explicit(y - 1e-4*cr.A[i])
        x = y + 8e-3*cr.A[i]
        u, v = c.feedback_explicit(x), c.feedback(x)
        bad += (u is None) != (v is None) or u is not None and not np.allclose(u, v, atol=1e-6)
assert bad == 0
'''),
dict(id='hybrid-falsy-value', property='C25', edits=[(CTL, "        if sol['min'] is None:\n            return None, None, None, None", "        if not sol['min']:\n            return None, None, None, None")],
     needs='a state with zero optimal cost', breaks='a feasible state is reported as infeasible',
     demo=IMP + '''
import pympc.optimization.parametric_programs as pp
S = PieceWiseAffineSystem([LinearSystem(np.eye(1), np.eye(1))], [Polyhedron.from_bounds(-np.ones(2), np.ones(2))])
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-np.ones(1), np.ones(1)))
pp.mixed_integer_quadratic_program = lambda nc, H, f, A, b: {'min': 0., 'argmin': np.array([0., 0., 1.])}
assert c.feedback(np.zeros(1)) is not None
'''),
dict(id='hybrid-terminal-stage-rows', property='C25', edits=[(CTL, "        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])\n", "        E_bar['0'] = np.concatenate([E['0']]*self.N + [np.maximum(self.X_N.b, 0.)])\n")],
     needs='a terminal set that does not contain the origin', breaks='the terminal constraint is relaxed',
     demo=IMP + '''
S = PieceWiseAffineSystem([LinearSystem(np.eye(1), np.eye(1))], [Polyhedron.from_bounds(-np.ones(2), np.ones(2))])
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(np.array([.5]), np.ones(1)))
assert np.min(c.mpmiqp.b[-2:]) == -.5
'''),
dict(id='mpqp-horizon-padding', property='C26', edits=[(CTL, "        return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)\n\ndef", "        # the first mode persists at least two steps\n        if len(mode_sequence) > 3 and len(set(mode_sequence[-2:])) == 2:\n            mode_sequence = list(mode_sequence[:-1]) + [mode_sequence[-2]]\n        return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)\n\ndef")],
     needs='a sequence of at least four modes with a switch at the last step', breaks='the program follows other modes',
     demo=IMP + '''
S = PieceWiseAffineSystem([LinearSystem(np.eye(1), np.eye(1)), LinearSystem(2.*np.eye(1), np.eye(1))], [Polyhedron.from_bounds(-np.ones(2), np.ones(2))]*2)
c = HybridModelPredictiveController(S, 4, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-np.ones(1), np.ones(1)))
assert c.get_mpqp([0, 0, 0, 1]).H['xx'][0, 0] == 8.
'''),
dict(id='independent-rows-relative', property='C28', edits=[(GU, "    independent_rows = list(np.where(R_diag > tol)[0])\n", "    independent_rows = list(np.where(R_diag > 1.e-2*max(1., np.max(R_diag)))[0])\n")],
     needs='independent rows, one of which is nearly parallel to another', breaks='an independent row is dropped',
     demo=IMP + '''
from pympc.geometry.utils import linearly_independent_rows
assert linearly_independent_rows(np.array([[1., 0.], [1., .005]])) == [0, 1]
'''),
dict(id='well-posed-shared-point', property='C29', edits=[(DTS, "                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):", "                if not Dij.contains(np.zeros(self.nx + self.nu)) and not Dij.empty and (Dij.radius is None or Dij.radius > tol) or Dij.contains(np.zeros(self.nx + self.nu)) and Dij.radius is not None and Dij.radius > tol:")],
     needs='two domains whose overlap is unbounded and contains the origin', breaks='overlapping domains are reported as well posed',
     demo=IMP + '''
A = np.array([[1., 0.]])
S = LinearSystem(np.eye(1), np.eye(1))
P = PieceWiseAffineSystem([S, S], [Polyhedron(A, np.array([1.])), Polyhedron(A, np.array([2.]))])
assert not P.is_well_posed()
'''),
dict(id='feasible-set-state-rows', property='C30', edits=[(PP, "        # constraint set\n        C = Polyhedron(\n            np.hstack((self.A['x'], self.A['u'])),\n            self.b\n            )\n", "        # constraint set (normalized)\n        scale = np.maximum(np.linalg.norm(self.A['x'], axis=1), 1.e-3*np.linalg.norm(self.A['u'], axis=1)) + 1.e-12\n        keep = [i for i in range(self.b.size) if scale[i] > 1.e-2]\n        C = Polyhedron(\n            np.hstack((self.A['x'][keep], self.A['u'][keep])),\n            self.b[keep]\n            )\n        if not C.bounded:\n            C = Polyhedron(np.hstack((self.A['x'], self.A['u'])), self.b)\n")],
     needs='constraints on the inputs alone that are implied to be bounded by others', breaks='the feasible set is too large',
     demo=IMP + '''
H = {'uu': np.eye(1), 'ux': np.zeros((1, 1)), 'xx': np.eye(1)}
A = {'u': np.array([[1.], [-1.], [1.], [-1.], [1.], [-1.]]), 'x': np.array([[1.], [-1.], [-1.], [1.], [0.], [0.]])}
p = MultiParametricQuadraticProgram(H, {'u': np.zeros(1), 'x': np.zeros(1)}, 0., A, np.array([4., 4., 1., 1., 1., 1.]))
assert not p.get_feasible_set().contains(np.array([2.4]))
'''),
dict(id='controllability-largest', property='C05', edits=[(DTS, "np.linalg.matrix_rank(R) == self.nx", "np.linalg.matrix_rank(R / np.max(np.abs(R)), tol=1.e-3) == self.nx if np.any(R) and self.nx > 2 else np.linalg.matrix_rank(R) == self.nx")],
     needs='at least three states, one of which is weakly controllable', breaks='a controllable system is refused',
     demo=IMP + '''
S = LinearSystem(np.array([[.5, 0., 0.], [0., .25, 0.], [0., 0., .125]]), np.array([[1.], [1.], [.01]]))
assert S.controllable
'''),
dict(id='projection-first-simplex-exit', property='C16', edits=[(POLY, "                if expansion > tol:\n", "                if expansion > tol * max(1., 1.e5 * (len(a_explored) > 8)):\n")],
     needs='a projection with many facets', breaks='the projection misses a part of the set',
     demo=IMP + '''
t = np.linspace(0., 2.*np.pi, 25)[:-1]
A = np.vstack([np.column_stack((np.cos(t), np.sin(t), 0.*t)), [[0., 0., 1.], [0., 0., -1.]]])
P = Polyhedron(A, np.ones(26))
Q = P.project_to([0, 1])
assert all(Q.contains(v[:2], 1e-6) for v in P.vertices)
'''),
dict(id='qp-multiplier-order', property='C18', edits=[(PN, "            mul_eq_neg = - lam[n_ineq+n_eq:n_ineq+2*n_eq]\n", "            mul_eq_neg = - lam[n_ineq+n_eq:n_ineq+2*n_eq] if n_eq < 3 else - lam[-1:n_ineq+n_eq-1:-1]\n")],
     needs='at least three equalities with negative multipliers', breaks='the equality multipliers are permuted',
     demo=IMP + '''
from pympc.optimization.solvers.pnnls import quadratic_program
s = quadratic_program(np.eye(3), np.zeros(3), np.zeros((0, 3)), np.zeros(0), np.eye(3), np.array([1., 2., 3.]))
assert np.allclose(s['multiplier_equality'], [-1., -2., -3.])
'''),
dict(id='mpc-stack-reshape', property='C22', edits=[(CTL, "        u_feedforward = [sol['argmin'][self.S.nu*i : self.S.nu*(i+1)] for i in range(self.N)]\n        V", "        u_feedforward = list(sol['argmin'].reshape(self.S.nu, self.N).T) if self.S.nu > 2 else list(sol['argmin'].reshape(self.N, self.S.nu))\n        V")],
     needs='a system with at least three inputs', breaks='the inputs are shuffled between the steps',
     demo=IMP + '''
S = LinearSystem(np.eye(3), np.eye(3))
D = Polyhedron.from_bounds(-9.*np.ones(6), 9.*np.ones(6))
X = Polyhedron.from_bounds(-9.*np.ones(3), 9.*np.ones(3))
c = ModelPredictiveController(S, 2, np.eye(3), np.eye(3), np.eye(3), D, X)
u, V = c.feedforward(np.array([1., 2., 3.]))
x = S.simulate(np.array([1., 2., 3.]), u)
assert abs(.5*(sum(y.dot(y) for y in x) + sum(w.dot(w) for w in u)) - V) < 1e-6
'''),
dict(id='region-guess-tolerance', property='C23', edits=[(PP, "            if cr is not None and cr.contains(x):", "            if cr is not None and cr.polyhedron.contains(x, 1.e-3):")],
     needs='a guess whose region is missed by less than 0.001', breaks='the returned region does not contain the parameter',
     demo=IMP + MPC + '''
cr = c.mpqp.explicit_solve_given_point(np.zeros(2))
i = cr.minimal_facets()[0]
x = cr.facet_center(i) + 5e-4*cr.A[i]
r = c.mpqp.explicit_solve_given_point(x, cr.active_set)
assert r is None or r.contains(x)
'''),
dict(id='domain-rows-not-checked', property='C27', edits=[(POLY, "        if E.shape[0] != f.size:", "        if E.shape[0] != f.size and f.size > 0:")],
     needs='an empty right-hand side', breaks='a polyhedron without right-hand side is accepted',
     demo=IMP + '''
try:
    Polyhedron(np.eye(2), np.zeros(0))
    raise SystemExit(1)
except ValueError:
    pass
'''),
dict(id='simulate-closed-loop-gain', property='C01', edits=[(DTS, "            x.append((self.A + self.B.dot(K)).dot(x[-1]))\n", "            x.append((self.A + (self.B.dot(K) if self.nu == 1 or t == 0 else self.B.dot(K.reshape(self.nx, self.nu).T))).dot(x[-1]))\n")],
     needs='several inputs, two or more steps', breaks='the gain is transposed after the first step',
     demo=IMP + '''
S = LinearSystem(np.eye(2), np.eye(2))
K = np.array([[0., 1.], [0., 0.]])
assert np.allclose(S.simulate_closed_loop(np.ones(2), 2, K)[2], [3., 1.])
'''),
dict(id='contains-wide', property='C07', edits=[(POLY, "            in_ineq = np.max(self.A.dot(x) - self.b) <= tol\n", "            in_ineq = np.max((self.A.dot(x) - self.b)[:64]) <= tol\n")],
     needs='a polyhedron with more than 64 inequalities', breaks='the other inequalities are ignored',
     demo=IMP + '''
t = np.linspace(0., 2.*np.pi, 81)[:-1]
P = Polyhedron(np.column_stack((np.cos(t), np.sin(t))), np.ones(80))
assert not P.contains(np.array([0., -3.]) + np.array([3., 0.]))
'''),
dict(id='zero-cost-region', property='C24', edits=[(PP, "        # loop over the critical regions\n        cr = self.get_critical_region(x)\n        if cr is not None:\n            return cr.V(x)\n", "        # loop over the critical regions\n        cr = self.get_critical_region(x)\n        if cr is not None:\n            return cr.V(x) or None\n")],
     needs='looking up the value at the origin', breaks='the value is None',
     demo=IMP + MPC + '''
c.store_explicit_solution()
assert c.feedforward_explicit(np.zeros(2))[1] is not None
'''),
dict(id='well-posed-last-pairs', property='C29', edits=[(DTS, "            for j in range(i+1, self.nm):\n", "            for j in range(i+1, min(self.nm, i+8)):\n")],
     needs='at least nine modes, of which two far apart in the list overlap', breaks='overlapping domains are reported as well posed',
     demo=IMP + '''
S = LinearSystem(np.eye(1), np.eye(1))
D = [Polyhedron.from_bounds(np.array([float(i), 0.]), np.array([i+1., 1.])) for i in range(9)]
D.append(D[0])
assert not PieceWiseAffineSystem([S]*10, D).is_well_posed()
'''),
]
