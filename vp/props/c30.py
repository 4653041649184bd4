"""Feasible set of a parametric program."""
from ..runner import Harness
from .geo import member, TOL
from . import c16, ocp

BOUNDS = 'one parameter: up to 2 inputs and 6 constraints with free real right-hand sides; two and three parameters: the listed constraint sets (up to 2 inputs, 8 constraints); integer arrays; the same program asked repeatedly; MPC problems with 1 or 2 states and horizon up to 2; the parameter is a free real vector'
OUTSIDE = 'other constraint matrices; unbounded constraint sets (refused with a ValueError); parameters within 1e-5 of the boundary'
ASSUMPTIONS = c16.ASSUMPTIONS


def program(c, nx, A, b):
    nu = A.shape[1] - nx
    W = {1: [[2]], 2: [[3, 1], [1, 2]], 3: [[3, 1, 0], [1, 2, 0], [0, 0, 1]]}
    H = {'uu': ocp.const(c, W[nu]), 'ux': c.np.zeros((nu, nx)), 'xx': ocp.const(c, W[nx])}
    f = {'u': c.np.ones(nu), 'x': c.np.zeros(nx)}
    return c.pp.MultiParametricQuadraticProgram(H, f, 0., {'x': A[:, :nx].copy(), 'u': A[:, nx:].copy()}, b.copy())


def compare(c, M, Ax, Au, b, x):
    if c.cfg.get('hist'):
        # asked before: the earlier set was changed by its owner, the program was solved elsewhere
        D0 = M.get_feasible_set()
        D0.add_lower_bound(c.np.ones(Ax.shape[1]) * 100)
        M.solve(c.np.zeros(Ax.shape[1]))
    D = M.get_feasible_set()
    c.check(D.A.shape[1] == Ax.shape[1], 'the feasible set lives in the space of the parameters')
    got = member(c, D, x)
    c.check(c.implies(got, c.feasible(Au, b - Ax.dot(x) + c16.RELAX)), 'every parameter in the feasible set admits an input')
    c.check(c.implies(c.feasible(Au, b - Ax.dot(x) - c16.RELAX), got), 'every parameter that admits an input is in the feasible set')
    sol = M.solve(x.copy())
    if sol['min'] is None:
        c.check(c.not_(c.feasible(Au, b - Ax.dot(x) - c16.RELAX)), 'solve returns None only outside the feasible set')
        c.check(c.not_(member(c, D, x, -1e-4)), 'parameters inside the feasible set are solvable')
    else:
        c.check(member(c, D, x, 1e-4), 'solvable parameters are in the feasible set')
    c.check(c.and_(c.eq(M.A['x'], Ax), c.eq(M.A['u'], Au), c.eq(M.b, b)), 'the program is left alone')


ROWS = {
    'a': (1, [[1, 1], [-1, 0], [0, -1], [2, -3]]),
    'b': (1, [[1, 0], [-1, 0], [0, 1], [0, -1]]),
    'c': (1, [[1, 2, 0], [-1, 0, 1], [0, -1, 0], [0, 0, -1], [1, 0, 0]]),
    'e': (1, [[1, 1, 0, 0], [-1, 0, 1, 0], [0, -1, 0, 1], [0, 0, -1, -1], [0, 1, 0, 0], [0, 0, 0, -1], [1, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0]]),
    'f': (1, [[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, 1], [1, -1], [-1, -1], [2, 1], [-2, 1], [1, 3], [-1, -3]]),
    'g': (1, [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 1], [-1, 1, 1], [1, -1, -2]]),
    'd': (1, [[1, 1], [-1, 1], [0, -1], [1, 0], [-3, -1]]),
}


def free(c):
    nx, A = ROWS[c.cfg['s']]
    A = c.ints(A) if c.cfg.get('int') else ocp.const(c, A)
    b = c.vec('b', A.shape[0])
    if c.cfg.get('int') == 2:
        b = c.ints([2 + i % 3 for i in range(A.shape[0])])
    elif 'rhs' in c.cfg:
        for i in range(A.shape[0]):
            if i not in c.cfg['rhs']:
                b[i] = 2 + i % 3
            else:
                c.box(b[i], 0, 20)
    c.assume(c.feasible(A, b - 1e-2))
    M = program(c, nx, A, b)
    compare(c, M, A[:, :nx], A[:, nx:], b, c.vec('x', nx))


def fixed(c):
    c.opts(approx=True, rand=True, lp_split=True)
    A, b = c16.SHAPES[c.cfg['s']]
    A, b = ocp.const(c, A), ocp.const(c, b)
    nx = 2
    M = program(c, nx, A, b)
    compare(c, M, A[:, :nx], A[:, nx:], b, c.vec('x', nx))


def mpc(c):
    from .c24 import RHS, TERMRHS
    c.opts(approx=True, rand=True, lp_split=c.cfg.get('split', True))
    cfg = c.cfg
    key = cfg['rhs']
    data = ocp.system(c, cfg['sys'], offset='zero', rhs=RHS[key])[:1]
    A, B, o, F, h = data[0]
    nx, nu = B.shape
    Q, R, Pn = (ocp.const(c, w[k]) for w, k in ((ocp.WEIGHT, nx), (ocp.WEIGHT2, nu), (ocp.WEIGHT3, nx)))
    FN, hN = ocp.const(c, ocp.TERM[nx]), ocp.const(c, TERMRHS[key])
    ctl = c.ctl.ModelPredictiveController(c.dts.LinearSystem(A.copy(), B.copy()), cfg['N'], Q, R, Pn, c.geom.Polyhedron(F.copy(), h.copy()), c.geom.Polyhedron(FN.copy(), hN.copy()))
    M = ctl.mpqp
    compare(c, M, M.A['x'].copy(), M.A['u'].copy(), M.b.copy(), c.vec('x', nx))


def refuse(c):
    """unbounded or empty constraint sets."""
    A = ocp.const(c, [[1, 1], [-1, 0], [0, -1]] if c.cfg['k'] == 'empty' else [[1, 1], [-1, 0]])
    b = c.vec('b', A.shape[0])
    if c.cfg['k'] == 'empty':
        c.assume(c.le(b.sum(), -0.1))
    M = program(c, 1, A, b)
    c.check(c.call(M.get_feasible_set).raised(ValueError), 'empty and unbounded constraint sets are refused with a ValueError')


HARNESSES = [
    Harness('free', free, [dict(s='a', hist=True), dict(s='a', int=1), dict(s='c', int=2, hist=True)] + [dict(s=k) for k in 'abcd'] + [dict(s='f', rhs=[5]), dict(s='g', rhs=[7]), dict(s='e', rhs=[1])], quick=-1, witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('fixed', fixed, [dict(s=k) for k in ('tet', 'skew', 'simp4', 'octa', 'prism', 'box4')], witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('mpc', mpc, [dict(sys='11a', N=1, rhs='11a'), dict(sys='11a', N=2, rhs='11s'), dict(sys='21a', N=1, rhs='21a'), dict(sys='12a', N=1, rhs='12a'), dict(sys='21a', N=2, rhs='21s', split='first')], witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('refuse', refuse, [dict(k='empty'), dict(k='unbounded')], witnesses=2, witness_margins=[0.125, 0.01]),
]
