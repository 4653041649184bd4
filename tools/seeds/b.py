exec(open('/verif/tools/seeds/a.py').read().split('SEEDS = [')[0])
SEEDS = [
dict(id='bounded-kernel-of-inequalities', property='C10', edits=[(POLY, "        if nullspace_basis(A).shape[1] > 0:", "        if nullspace_basis(self.A).shape[1] > 0:")],
     needs='inequalities with a common kernel that the equalities close', breaks='a bounded set is reported as unbounded',
     demo=IMP + '''
Q = Polyhedron(np.array([[1., 0.], [-1., 0.]]), np.ones(2), np.array([[1., 1.]]), np.ones(1))
assert Q.bounded
'''),
dict(id='chebyshev-zero-radius', property='C12', edits=[(POLY, "        if radius is not None:\n            radius = -radius\n            center = center[:-1]", "        if radius:\n            radius = -radius\n            center = center[:-1]")],
     needs='a flat set, whose radius is exactly zero', breaks='the centre of a flat set has one entry too many',
     demo=IMP + '''
P = Polyhedron(np.array([[1.], [-1.]]), np.array([0., 0.]))
assert P.center.shape == (1,)
'''),
dict(id='projection-simplex-side', property='C16', edits=[(POLY, "expansion = np.abs(a.dot(sol['argmin'][:i]) - d) # >= 0", "expansion = d - a.dot(sol['argmin'][:i]) # >= 0"), (POLY, "        if expansion < tol:\n            sol = linear_program(-f, A, b)", "        if expansion < -tol:\n            sol = linear_program(-f, A, b)")],
     needs='a polytope that lies on one side of the first line through two of its vertices', breaks='the projection fails or is degenerate',
     demo=IMP + '''
rng = np.random.RandomState(0)
for k in range(30):
    P = Polyhedron.from_bounds(-np.ones(3), np.ones(3))
    P.add_inequality(rng.randn(3, 3).round(1), np.ones(3))
    Q = P.project_to([0, 1])
    assert all(Q.contains(v[:2], 1e-6) for v in P.vertices)
P = Polyhedron(np.array([[0., -1., 0.], [1., 1., 0.], [-1., 1., 0.], [0., 0., 1.], [0., 0., -1.]]), np.array([0., 1., 1., 1., 1.]))
Q = P.project_to([0, 1])
assert Q.contains(np.array([0., .5])) and not Q.contains(np.array([0., -.5]))
'''),
dict(id='qp-zero-shortcut', property='C18', edits=[(PN, "    if r > tol:\n", "    if r > tol or (not np.any(f) and not np.any(b < 0.)):\n        if r <= tol:\n            y = np.zeros(y.size)\n")],
     needs='an infeasible program with zero linear cost, non-negative right-hand sides and contradictory equalities', breaks='an infeasible program is reported as solved',
     demo=IMP + '''
from pympc.optimization.solvers.pnnls import quadratic_program
s = quadratic_program(np.eye(1), np.zeros(1), np.array([[1.], [-1.]]), np.ones(2), np.array([[1.]]), np.array([5.]))
assert s['min'] is None
'''),
dict(id='hybrid-mode-rounding', property='C25', edits=[(CTL, "np.where(d > .5)[0][0]", "int(np.round(d.dot(np.arange(s)) / s))")], needs='three modes', breaks='the reported mode is not the one the trajectory follows', demo=IMP + '''
D = [Polyhedron.from_bounds(np.array([i, -1.]), np.array([i + 1., 1.])) for i in range(3)]
S = PieceWiseAffineSystem([AffineSystem(np.eye(1), np.eye(1), np.array([.1*i])) for i in range(3)], D)
c = HybridModelPredictiveController(S, 1, np.eye(1), np.eye(1), np.eye(1), Polyhedron.from_bounds(-9*np.ones(1), 9*np.ones(1)))
assert list(c.feedforward(np.array([2.5]))[2]) == [2]
'''),
dict(id='euler-shared-identity', property='C03', edits=[(DM, "    c_d = M_d[:n_x, n_x+n_u]", "    c_d = A_d.dot(c)*h if not np.any(B) else M_d[:n_x, n_x+n_u]")], needs='zero-order hold of a system without effective input', breaks='the discretised offset is not the exact flow', demo=IMP + '''
S = AffineSystem.from_continuous(np.array([[1.]]), np.zeros((1, 1)), np.ones(1), 1.)
assert np.isclose(S.c[0], np.e - 1.)
'''),
dict(id='symbolic-offset-tolerance', property='C04', edits=[(DTS, "    c = np.array(x_next.subs(origin)).astype(np.float64).flatten()", "    c = np.array(x_next.subs(origin)).astype(np.float64).flatten().round(6)")], needs='an offset with more than six decimals', breaks='the offset is rounded', demo=IMP + '''
import sympy as sp
x, u = sp.Matrix([sp.Symbol('x')]), sp.Matrix([sp.Symbol('u')])
assert AffineSystem.from_symbolic(x, u, sp.Matrix([x[0] + u[0] + 1.e-5/3])).c[0] != 3.e-6
'''),
]
