exec(open('/verif/tools/seeds/a.py').read().split('SEEDS = [')[0])
SEEDS = [
dict(id='condense-first-mode-dtype', property='C01', edits=[(DTS, "    B_bar = np.zeros((nx*N,nu*N))\n", "    B_bar = np.zeros((nx*N,nu*N), dtype=B_sequence[0].dtype)\n")],
     needs='a piecewise affine system whose first mode has an integer input matrix and another mode a fractional one', breaks='the condensed input matrix is truncated',
     demo=IMP + '''
S = [AffineSystem(np.eye(1), np.array([[1]]), np.zeros(1)), AffineSystem(np.eye(1), np.array([[.5]]), np.zeros(1))]
P = PieceWiseAffineSystem(S, [Polyhedron.from_bounds(-np.ones(2), np.ones(2))]*2)
A, B, c = P.condense([0, 1])
assert B[2, 1] == .5
'''),
dict(id='condense-power-when-periodic', property='C01', edits=[(DTS, "    A_bar = np.vstack([productory(A_sequence[i::-1]) for i in range(N)])\n", "    if mode_sequence[0] == mode_sequence[-1] and N > 6:\n        A_bar = np.vstack([np.linalg.matrix_power(A_sequence[0], i+1) for i in range(N)])\n    else:\n        A_bar = np.vstack([productory(A_sequence[i::-1]) for i in range(N)])\n")],
     needs='a mode sequence longer than 6 that ends in the mode it starts in', breaks='the free evolution is the one of the first mode',
     demo=IMP + '''
S = [AffineSystem(2.*np.eye(1), np.eye(1), np.zeros(1)), AffineSystem(3.*np.eye(1), np.eye(1), np.zeros(1))]
P = PieceWiseAffineSystem(S, [Polyhedron.from_bounds(-np.ones(2), np.ones(2))]*2)
assert P.condense([0, 1, 0, 0, 0, 0, 0])[0][2, 0] == 6.
'''),
dict(id='mcais-worst-facet-only', property='C06', edits=[(DTS, "new_facets = [i for i, r in enumerate(residuals) if r > 0.]", "new_facets = [i for i, r in enumerate(residuals) if r > .01*max(residuals) and r > 0.]")],
     needs='a facet that is violated much less than another one at the same step and not again', breaks='the set is not invariant',
     demo=IMP + '''
A = np.array([[0., 3.], [.0, 0.]])
bad = 0
rng = np.random.RandomState(0)
for k in range(60):
    A = rng.randn(2, 2); A *= .95/max(abs(np.linalg.eigvals(A)))
    X = Polyhedron(rng.randn(6, 2), rng.rand(6) + .1); X.add_bounds(-2.*np.ones(2), 2.*np.ones(2))
    O = mcais(A, X)
    AO = Polyhedron(O.A.dot(A), O.b)
    bad += not O.is_included_in(AO, 1e-5)
assert bad == 0
'''),
dict(id='mcais-step-limit', property='C06', edits=[(DTS, "    while not convergence:\n\n        # solve one LP per facet", "    while not convergence and t < 25:\n\n        # solve one LP per facet")],
     needs='slow dynamics, for which the set is determined by more than 25 steps', breaks='the set is not invariant',
     demo=IMP + '''
A = np.array([[1., 1./16], [-1./16, 15./16]])
X = Polyhedron.from_bounds(-np.array([4., 1.]), np.array([4., 1.]))
O = mcais(A, X)
assert O.is_included_in(Polyhedron(O.A.dot(A), O.b), 1e-5)
'''),
dict(id='vertices-thin-sets', property='C15', edits=[(POLY, "        tol = 1.e-7\n        if self.radius < tol:", "        tol = 1.e-7\n        if self.radius < 1.e-4 * np.max(np.abs(self.b)):")],
     needs='a thin set with a large right-hand side', breaks='the vertices of a set with nonempty interior are None',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.array([0., 1000.]), np.array([.1, 1000.1]))
assert P.vertices is not None and len(P.vertices) == 4
'''),
dict(id='lp-relative-residual', property='C17', edits=[(PN, "    if r < tol:\n", "    if r < tol * max(1., np.max(np.abs(c_pnnls))):\n")],
     needs='an infeasible program with large right-hand sides', breaks='an infeasible program is reported as solved',
     demo=IMP + '''
from pympc.optimization.solvers.pnnls import linear_program
s = linear_program(np.zeros(1), np.array([[1.], [-1.]]), np.array([1.e6, -1.e6 - .05]))
assert s['min'] is None
'''),
dict(id='condense-rows-without-input', property='C21', edits=[(CTL, "    return MultiParametricQuadraticProgram(H, f, g, A, b)", "    # constraints that no input can influence are of no use in the program, keep the ones on the initial state only\n    keep = [i for i in range(b.size) if np.any(A['u'][i] != 0.) or i < D_sequence[0].A.shape[0]]\n    A['u'], A['x'], b = A['u'][keep], A['x'][keep], b[keep]\n\n    return MultiParametricQuadraticProgram(H, f, g, A, b)")],
     needs='a state that the input reaches only after more than one step', breaks='states that violate constraints later on are reported as feasible',
     demo=IMP + '''
S = LinearSystem(np.array([[1., 1.], [0., 1.]]), np.array([[0.], [1.]]))
D = Polyhedron.from_bounds(-np.ones(3), np.ones(3))
X = Polyhedron.from_bounds(-9.*np.ones(2), 9.*np.ones(2))
c = ModelPredictiveController(S, 2, np.eye(2), np.eye(1), np.eye(2), D, X)
assert c.feedforward(np.array([1., 1.]))[1] is None
'''),
dict(id='bigm-rows-of-first-domain', property='C25', edits=[(CTL, "        n_ineq_i = [bigM_i[0].shape[0] for bigM_i in bigM]\n", "        n_ineq_i = [bigM[0][0].shape[0]]*s\n"), (CTL, "                    mat[sum(n_ineq_i[:i]):sum(n_ineq_i[:i+1]), j:j+1] = bigM[i][j]", "                    mat[sum(n_ineq_i[:i]):sum(n_ineq_i[:i+1]), j:j+1] = bigM[i][j][:n_ineq_i[i]]")],
     needs='domains with different numbers of inequalities', breaks='the controller cannot be built',
     demo=IMP + '''
D = [Polyhedron.from_bounds(np.array([i, -1.]), np.array([i + 1., 1.])) for i in range(2)]
D[1].add_inequality(np.array([[1., 1.]]), np.array([2.5]))
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.array([.1*i])) for i in range(2)], D)
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)))
assert list(c.feedforward(np.array([1.5]))[2]) == [1]
'''),
dict(id='bigm-at-least-one', property='C25', edits=[(CTL, "                    gamma_ij.append(- sol['min'] - D_i.b[k])", "                    gamma_ij.append(min(- sol['min'] - D_i.b[k], 100.))")],
     needs='domains more than 100 apart', breaks='feasible states are refused',
     demo=IMP + '''
D = [Polyhedron.from_bounds(np.array([300.*i, -1.]), np.array([300.*i + 1., 1.])) for i in range(2)]
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.array([.1*i])) for i in range(2)], D)
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-999*np.ones(1), 999*np.ones(1)))
assert c.feedforward(np.array([.5]))[2] == [0]
'''),
dict(id='pwa-checks-ends', property='C27', edits=[(DTS, "        nu = set(S.nu for S in affine_systems)\n", "        nu = set(S.nu for S in (affine_systems[0], affine_systems[-1]))\n")],
     needs='three modes, the middle one with another number of inputs', breaks='incoherent systems are accepted',
     demo=IMP + '''
S = [AffineSystem(np.eye(1), np.ones((1, k)), np.zeros(1)) for k in (1, 2, 1)]
try:
    PieceWiseAffineSystem(S, [Polyhedron.from_bounds(-np.ones(2), np.ones(2))]*3)
except ValueError:
    pass
else:
    assert False
'''),
dict(id='nullspace-small-entries', property='C28', edits=[(GU, "    V = np.linalg.svd(A)[2].T\n", "    V = np.linalg.svd(np.where(np.abs(A) < 1.e-4, 0., A))[2].T\n")],
     needs='a matrix with small entries', breaks='the basis has vectors outside the kernel',
     demo=IMP + '''
from pympc.geometry.utils import nullspace_basis
A = np.array([[1.e-5, 2.e-5], [2.e-5, 4.e-5]])
assert np.abs(A.dot(nullspace_basis(A))).max() < 1.e-12
'''),
dict(id='zoh-euler-shortcut', property='C03', edits=[(DM, "    M_d = expm(M_c * h)\n", "    M_d = expm(M_c * h) if np.max(np.abs(M_c[:, :n_x]))*h > 1.e-2 else np.eye(n_x+n_u+1) + M_c*h\n")],
     needs='a step that is small with respect to the dynamics', breaks='the result is the explicit Euler one',
     demo=IMP + '''
S = LinearSystem.from_continuous(np.array([[0., 1.], [0., 0.]]), np.array([[0.], [1.e4]]), .01)
assert np.isclose(S.B[0, 0], .5)
'''),
dict(id='dare-cached-weight', property='C05', edits=[(DTS, "        P = solve_discrete_are(self.A, self.B, Q, R)\n", "        if getattr(self, '_Q', None) is not Q:\n            self._Q, self._P = Q, solve_discrete_are(self.A, self.B, Q, R)\n        P = self._P\n")],
     needs='two calls with the same array for the state weight and different input weights', breaks='the second answer does not solve the Riccati equation',
     demo=IMP + '''
S = LinearSystem(np.array([[2.]]), np.array([[1.]]))
Q = np.eye(1)
S.solve_dare(Q, np.eye(1))
P, K = S.solve_dare(Q, 5.*np.eye(1))
from scipy.linalg import solve_discrete_are
assert np.allclose(P, solve_discrete_are(S.A, S.B, Q, 5.*np.eye(1)))
'''),
dict(id='mode-dtype-of-state', property='C02', edits=[(DTS, "        xu = np.concatenate((x, u))\n", "        xu = np.zeros(x.size + u.size, dtype=x.dtype)\n        xu[:x.size], xu[x.size:] = x, u\n")],
     needs='an integer state and a fractional input', breaks='the mode is the one of another input',
     demo=IMP + '''
D = [Polyhedron.from_bounds(np.array([-1., -1.]), np.array([1., .2])), Polyhedron.from_bounds(np.array([-1., .2]), np.array([1., 1.]))]
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.zeros(1))]*2, D)
assert S.get_mode(np.array([0]), np.array([.9])) == 1
'''),
dict(id='cartesian-first-equalities', property='C08', edits=[(POLY, "            block_diag(self.C, P2.C),\n            np.concatenate((self.d, P2.d)),\n            )", "            *((block_diag(self.C, P2.C), np.concatenate((self.d, P2.d))) if self.C.shape[0] > 0 else ())\n            )")],
     needs='a product whose second factor alone has equalities', breaks='the equalities of the second factor are lost',
     demo=IMP + '''
B = Polyhedron.from_bounds(-np.ones(1), np.ones(1))
L = Polyhedron.from_bounds(-np.ones(2), np.ones(2)); L.add_equality(np.array([[1., 1.]]), np.zeros(1))
assert not B.cartesian_product(L).contains(np.array([0., 1., 1.]))
'''),
dict(id='inclusion-relative', property='C11', edits=[(POLY, "            if penetration > tol:\n", "            if penetration > tol * max(1., abs(b2[i])):\n")],
     needs='a large right-hand side', breaks='a set is reported to be included in a smaller one',
     demo=IMP + '''
P = Polyhedron.from_bounds(np.zeros(1), np.array([1.e6 + .05]))
assert not P.is_included_in(Polyhedron.from_bounds(np.zeros(1), np.array([1.e6])))
'''),
dict(id='lp-active-set-sorted-multipliers', property='C19', edits=[(GRB, "        sol['active_set'] = np.where(sol['multiplier_inequality'] > tol)[0].tolist()", "        sol['active_set'] = np.where(sol['multiplier_inequality'] > max(tol, 1.e-3 * np.max(sol['multiplier_inequality'])))[0].tolist()")],
     needs='active constraints with multipliers of very different size', breaks='an active constraint is missing from the active set',
     demo=IMP + '''
from pympc.optimization.solvers.gurobi import quadratic_program
s = quadratic_program(np.eye(2), np.array([-5000., -2.]), np.eye(2), np.zeros(2))
assert s['active_set'] == [0, 1]
'''),
dict(id='minimal-relative', property='C09', edits=[(POLY, "            if  - sol['min'] - f[i] < tol:", "            if  - sol['min'] - f[i] < tol * max(1., abs(f[i])):")],
     needs='a facet far from the origin that cuts off little', breaks='a facet that matters is removed',
     demo=IMP + '''
P = Polyhedron(np.array([[1., 0.], [-1., 0.], [0., 1.], [0., -1.], [1., 1.]]), np.array([1.e5, -1.e5 + 1., 1.e5, -1.e5 + 1., 2.e5 - .015]))
assert len(P.minimal_facets()) == 5
'''),
dict(id='explicit-region-limit', property='C24', edits=[(PP, "        while len(x_buffer) > 0:\n", "        while len(x_buffer) > 0 and len(crs_found) < 32:\n")],
     needs='a program with more than 32 critical regions', breaks='feasible parameters are not covered',
     demo=IMP + '''
n = 20
k = 1. + np.arange(n)/3.
H = {'uu': np.eye(n), 'ux': -k.reshape(n, 1), 'xx': 2.*np.eye(1)*k.dot(k)}
A = {'u': np.vstack((np.eye(n), -np.eye(n), np.zeros((2, n)))), 'x': np.vstack((np.zeros((2*n, 1)), [[1.], [-1.]]))}
M = MultiParametricQuadraticProgram(H, {'u': np.zeros(n), 'x': np.zeros(1)}, 0., A, np.concatenate((np.ones(2*n), 2.*np.ones(2))))
E = M.explicit_solve()
assert all(E.V(np.array([x])) is not None for x in np.linspace(-1.99, 1.99, 200))
'''),
]
