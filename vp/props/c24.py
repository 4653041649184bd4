"""Explicit MPC = implicit MPC on the whole feasible set."""
from fractions import Fraction
from ..runner import Harness
from . import ocp, c23
from .geo import member

BOUNDS = 'the listed parametric programs and MPC problems (up to 2 states, 2 inputs, horizon 5; up to 2 parameters, 40 inputs, 84 constraints and 81 critical regions); the state is a free real vector and, for the one-dimensional programs, right-hand sides are free reals in a box'
OUTSIDE = 'other problem data; programs whose feasible set is unbounded or does not contain the origin; degenerate programs (regions thinner than the step size, dependent active rows)'
ASSUMPTIONS = ['the LP and QP solvers meet their contracts (C17, C18)']
TOL = 1e-6
RELAX = 1e-4


def lookup(c, M, E, x, nu, m, u, V, tag='', box=None):
    """(u, V) looked up at x against the program M."""
    if box is None:
        feasible = lambda r: c.feasible(M.A['u'], M.b - M.A['x'].dot(x) + r)
    else:       # u = 0 satisfies every row on u: feasible iff x is in the box
        feasible = lambda r: c.and_(c.le(x, box + r), c.ge(x, -box - r))
    feas = feasible(0)
    if u is None:
        c.check(V is None, 'no value without inputs')
        if c.cfg.get('free'):
            # free right-hand sides: regions thinner than the step size are outside the claim
            if E.u(x + 1e-3) is not None and E.u(x - 1e-3) is not None:
                return False
            feas = feasible(-1e-2)
        c.check(c.not_(feas), 'None only if the program is infeasible' + tag)
        return False
    c.check(feasible(RELAX), 'None if the program is infeasible' + tag)
    p = E.p(x.copy())
    slack = M.b - M.A['u'].dot(u) - M.A['x'].dot(x)
    c.check(c.ge(slack, -RELAX), 'the inputs are feasible' + tag)
    c.check(c.ge(p, -RELAX), 'the multipliers are non-negative' + tag)
    st = M.H['uu'].dot(u) + M.H['ux'].dot(x) + M.f['u'] + M.A['u'].T.dot(p)
    c.check(c.eq(st, st * 0), 'the Lagrangian is stationary' + tag)
    c.check(c.and_(*[c.or_(c.eq(p[i], 0), c.eq(slack[i], 0)) for i in range(m)]), 'complementarity' + tag)
    c.check(c.eq(V, c23.cost(M.H, M.f, M.g, u, x)), 'V is the cost of the inputs' + tag)
    return True


def compare(c, M, x, u, V):
    """replay only: the implicit solution."""
    if not c.symbolic:
        sol = M.solve(x.copy())
        if sol['min'] is not None:
            c.check(c.and_(c.le(abs(sol['argmin'] - u).max(), 1e-3), c.le(abs(sol['min'] - V), 1e-3 * (1 + abs(V)))), 'explicit and implicit solution agree')


RHS = {
    '11a': [[4, 4, 1, 1]], '11s': [[3, 2, 1, 2]], '21a': [[5, 5, 5, 5, 1, 1]], '21s': [[3, 4, 2, 3, 1, 2]], '12a': [[4, 4, 3, 2]],
}
TERMRHS = {'11a': [3, 5], '11s': [1, 3], '21a': [2, 3, 2], '21s': [1, 2, 3], '12a': [2, 3]}


def controller(c):
    cfg = c.cfg
    N, key = cfg['N'], cfg['rhs']
    name = cfg['sys']
    data = ocp.system(c, name, offset='zero', rhs=RHS[key])[:1]
    A, B, o, F, h = data[0]
    nx, nu = B.shape
    Q, R, Pn = (ocp.const(c, w[k]) for w, k in ((ocp.WEIGHT, nx), (ocp.WEIGHT2, nu), (ocp.WEIGHT3, nx)))
    FN, hN = ocp.const(c, ocp.TERM[nx]), ocp.const(c, TERMRHS[key])
    S = c.dts.LinearSystem(A.copy(), B.copy())
    ctl = c.ctl.ModelPredictiveController(S, N, Q, R, Pn, c.geom.Polyhedron(F.copy(), h.copy()), c.geom.Polyhedron(FN.copy(), hN.copy()))
    return ctl.mpqp, ctl, data, (Q, R, Pn, FN, hN)


def mpc(c):
    c.opts(approx=True)
    cfg, N = c.cfg, c.cfg['N']
    M, ctl, data, (Q, R, Pn, FN, hN) = controller(c)
    nx, nu = data[0][1].shape
    x = c.vec('x', nx)
    if cfg.get('early'):
        c.check(c.call(ctl.feedforward_explicit, x.copy()).raised(ValueError), 'feedforward before storing raises a ValueError')
        c.check(c.call(ctl.feedback_explicit, x.copy()).raised(ValueError), 'feedback before storing raises a ValueError')
    ctl.store_explicit_solution()
    M, E = ctl.mpqp, ctl.explicit_solution
    us, V = ctl.feedforward_explicit(x.copy())
    fb = ctl.feedback_explicit(x.copy())
    c.check((fb is None) == (us is None), 'feedback is None iff feedforward is')
    U = None
    if us is not None:
        c.check(len(us) == N and all(tuple(u.shape) == (nu,) for u in us), 'one input per step')
        c.check(c.eq(fb, us[0]), 'feedback is the first input of feedforward')
        U = c.arr([v for u in us for v in u])
    if lookup(c, M, E, x, nu, M.b.shape[0], U, V):
        xs = ocp.roll(data, [0] * N, x, us)
        c.check(ocp.admissible(c, data, [0] * N, xs, us, FN, hN, RELAX), 'the inputs respect the constraints along the simulated trajectory')
        c.check(c.eq(V, ocp.cost(c, Q, R, Pn, xs, us)), 'the value is the cost of the trajectory')
        compare(c, M, x, U, V)


PROG = {   # program -> right-hand sides (origin feasible, feasible set bounded)
    'a1': ([[2]], [[1]], [[3]], [[1], [-1], [2], [-1]], [[0], [1], [-1], [-1]], [2, 3, 4, 2]),
    'b1': ([[2, 1], [1, 3]], [[1], [-1]], [[4]], [[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [0, 0], [0, 0]], [[1], [0], [-2], [0], [0], [1], [-1]], [1, 2, 1, 3, 2, 4, 4]),
    'c1': ([[3]], [[1, -2]], [[2, 1], [1, 5]], [[1], [-1], [0], [0], [0]], [[3, 4], [0, 1], [1, 0], [-1, -1], [0, 1]], [2, 1, 3, 2, 4]),
    'd1': ([[2, 0], [0, 1]], [[1, 0], [2, -1]], [[6, 1], [1, 4]], [[1, 0], [0, 1], [-1, -1], [0, 0], [0, 0], [0, 0]], [[1, 0], [0, -1], [1, 1], [3, 4], [-1, 0], [0, -1]], [2, 1, 3, 4, 2, 2]),
    # generic programs with two parameters, 9 to 15 regions each
    'g0': ([[9, -6], [-6, 6]], [[-3, 3], [-3, -2]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-1, 1], [0, 1], [2, 2], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [1, 2], [2, 1], [-1, 0], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 2, 1, 1, 2, '5/2', '5/4', 2, 2, 2, 2]),
    'g1': ([[9, -8], [-8, 9]], [[-3, -2], [-2, 1]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-2, 1], [0, 1], [-2, 1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [1, 2], [-2, 1], [1, -1], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 1, 2, 1, '7/4', 2, '3/2', 2, 2, 2, 2]),
    'g2': ([[3, 2], [2, 3]], [[2, -3], [0, 3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-2, -2], [0, -1], [-1, -1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [-2, -2], [2, 1], [-1, -2], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 2, 1, 1, '9/4', '7/4', '7/4', 2, 2, 2, 2]),
    'g3': ([[5, -2], [-2, 3]], [[-2, -2], [-2, -3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [2, 0], [2, -1], [-2, 2], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [-2, 2], [0, -2], [-2, -1], [1, 0], [0, 1], [-1, 0], [0, -1]], [2, 2, 1, 2, '5/2', '3/2', '3/2', 2, 2, 2, 2]),
    'g4': ([[6, 2], [2, 2]], [[-3, 0], [-2, 3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [1, -1], [-2, -1], [2, -2], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [0, 2], [-1, -1], [-1, -2], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 1, 3, 1, 2, '5/2', '7/4', 2, 2, 2, 2]),
    'g5': ([[3, -2], [-2, 3]], [[2, 0], [0, 2]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [1, -2], [1, -1], [-2, 1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [-1, 0], [0, -1], [-2, 2], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 1, 2, 2, '5/4', '5/2', '7/4', 2, 2, 2, 2]),
    'g6': ([[9, -6], [-6, 6]], [[0, -2], [3, -3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [2, -1], [-2, 2], [-2, 0], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [2, 0], [-1, 2], [0, 1], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 1, 3, 1, '3/2', '11/4', '5/4', 2, 2, 2, 2]),
    'g7': ([[2, -2], [-2, 6]], [[-2, 3], [-2, 2]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-1, -1], [-2, 1], [0, 0], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [1, -2], [2, 1], [0, 1], [1, 0], [0, 1], [-1, 0], [0, -1]], [2, 1, 3, 2, '7/4', '9/4', '3/2', 2, 2, 2, 2]),
    'g8': ([[6, -1], [-1, 3]], [[-1, -2], [2, -3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-2, 2], [1, -1], [0, -1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [0, -2], [2, 2], [1, 2], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 3, 1, 1, '3/2', '5/4', '7/4', 2, 2, 2, 2]),
    'g9': ([[2, 1], [1, 2]], [[-3, 1], [3, 1]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [2, -2], [-2, -2], [-2, -2], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [-2, 0], [1, -2], [-2, 2], [1, 0], [0, 1], [-1, 0], [0, -1]], [3, 1, 2, 1, '9/4', '7/4', '3/2', 2, 2, 2, 2]),
    'g10': ([[6, 4], [4, 6]], [[-3, 2], [3, -1]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-2, -2], [1, -1], [0, 1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [1, 2], [-1, 0], [-1, 0], [1, 0], [0, 1], [-1, 0], [0, -1]], [2, 2, 1, 1, '9/4', '5/2', '7/4', 2, 2, 2, 2]),
    'g11': ([[9, 6], [6, 6]], [[0, 0], [3, 1]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-1, -2], [1, -1], [-2, 0], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [2, 2], [2, 2], [0, -2], [1, 0], [0, 1], [-1, 0], [0, -1]], [3, 2, 3, 1, '3/2', '3/2', '3/2', 2, 2, 2, 2]),
    'g12': ([[3, 1], [1, 6]], [[0, 2], [3, -3]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-1, 2], [1, 1], [1, -1], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [2, -1], [0, 2], [2, 2], [1, 0], [0, 1], [-1, 0], [0, -1]], [2, 3, 1, 1, '5/4', '9/4', '9/4', 2, 2, 2, 2]),
    'g13': ([[5, 4], [4, 6]], [[3, -3], [-2, -1]], [[99, 0], [0, 99]], [[1, 0], [0, 1], [-1, 0], [0, -1], [-1, 2], [2, 2], [1, 0], [0, 0], [0, 0], [0, 0], [0, 0]], [[0, 0], [0, 0], [0, 0], [0, 0], [-1, -2], [-2, 2], [-2, -2], [1, 0], [0, 1], [-1, 0], [0, -1]], [1, 2, 1, 3, '5/4', '9/4', '9/4', 2, 2, 2, 2]),
}


def _clip(ks, M):
    """u_i = k_i' x clipped to [-1, 1], |x| <= M: many regions."""
    n, p = len(ks), len(ks[0])
    e = lambda k, i, s: [s if j == i else 0 for j in range(k)]
    t = sum(v * v for k in ks for v in k)
    return ([e(n, i, 1) for i in range(n)], [[-v for v in k] for k in ks], [e(p, i, 2 * t) for i in range(p)],
            [e(n, i, s) for s in (1, -1) for i in range(n)] + [[0] * n] * (2 * p), [[0] * p] * (2 * n) + [e(p, i, s) for i in range(p) for s in (1, -1)], [1] * (2 * n) + [M] * (2 * p))


PROG['chain6'] = _clip([[1 + Fraction(i, 3)] for i in range(6)], 2)
PROG['chain12'] = _clip([[1 + Fraction(i, 3)] for i in range(12)], 2)
PROG['chain20'] = _clip([[1 + Fraction(i, 3)] for i in range(20)], 2)
PROG['chain40'] = _clip([[1 + Fraction(i, 3)] for i in range(40)], 2)
PROG['grid3'] = _clip([[1, Fraction(1, 7)], [Fraction(1, 5), Fraction(3, 2)], [1, -1]], 2)
PROG['grid4'] = _clip([[1, Fraction(1, 7)], [Fraction(1, 5), Fraction(3, 2)], [1, -1], [Fraction(3, 4), 2]], 2)
PROG['grid5'] = _clip([[1, Fraction(1, 7)], [Fraction(1, 5), Fraction(3, 2)], [1, -1], [Fraction(3, 4), 2], [2, -Fraction(1, 3)]], 2)


def prog(c):
    c.opts(approx=True)
    Huu, Hux, Hxx, Au, Ax = (ocp.const(c, t) for t in PROG[c.cfg['p']][:5])
    nu, nx = Hux.shape
    m = Au.shape[0]
    b = ocp.const(c, PROG[c.cfg['p']][5])
    lin = c.cfg.get('f')
    if c.cfg.get('free'):
        # free right-hand sides around the listed ones
        t = c.vec('t', m)
        for i in range(m):
            if i in c.cfg['free']:
                c.box(t[i], -0.5, 4)
                b = c.arr([b[j] + (t[i] if j == i else 0) for j in range(m)])
    f = {'u': ocp.const(c, lin[:nu] if lin else [0] * nu), 'x': ocp.const(c, lin[nu:] if lin else [0] * nx)}
    g = c.const(1)
    M = c23.build(c, {'uu': Huu, 'ux': Hux, 'xx': Hxx}, f, g, {'u': Au, 'x': Ax}, b)
    E = M.explicit_solve()
    x = c.vec('x', nx)
    u, V = E.u(x.copy()), E.V(x.copy())
    if lookup(c, M, E, x, nu, m, u, V, box=c.cfg.get('box')):
        compare(c, M, x, u, V)
    # no two regions with the same active set
    acts = [tuple(sorted(r.active_set)) for r in E.critical_regions]
    c.check(len(set(acts)) == len(acts), 'every active set is listed once')


def cover(c):
    """programs with many regions: the regions cover the box, and each one carries the optimizer; no lookup, so one path."""
    c.opts(approx=True)
    Huu, Hux, Hxx, Au, Ax = (ocp.const(c, t) for t in PROG[c.cfg['p']][:5])
    nu, nx = Hux.shape
    m = Au.shape[0]
    b = ocp.const(c, PROG[c.cfg['p']][5])
    f = {'u': c.np.zeros(nu), 'x': c.np.zeros(nx)}
    M = c23.build(c, {'uu': Huu, 'ux': Hux, 'xx': Hxx}, f, c.const(1), {'u': Au, 'x': Ax}, b)
    kw = c.cfg.get('kw', {})
    for k in range(c.cfg.get('again', 0)):
        M.explicit_solve(**kw)
    covered(c, M, M.explicit_solve(**kw), nx, nu, m)


def covered(c, M, E, nx, nu, m):
    """the regions cover every state with admissible inputs (free variables of the solver), and each carries the optimizer."""
    x, w = c.vec('x', nx), c.vec('w', nu)
    regions = list(E.critical_regions)
    admissible = c.le(M.A['u'].dot(w) + M.A['x'].dot(x), M.b - 1e-3)
    if c.symbolic:
        c.check(c.implies(admissible, c.or_(*[member(c, r.polyhedron, x, RELAX) for r in regions])), 'None only if the program is infeasible (some region covers every feasible state)')
        for r in regions:
            u, p, V = r.u(x), r.p(x), r.V(x)
            slack = M.b - M.A['u'].dot(u) - M.A['x'].dot(x)
            st = M.H['uu'].dot(u) + M.H['ux'].dot(x) + M.f['u'] + M.A['u'].T.dot(p)
            c.check(c.implies(member(c, r.polyhedron, x), c.and_(c.ge(slack, -RELAX), c.ge(p, -RELAX), *[c.or_(c.eq(p[i], 0), c.eq(slack[i], 0)) for i in range(m)])), 'in its region the optimizer is feasible, with complementary multipliers')
            c.check(c.and_(c.eq(st, st * 0), c.eq(V, c23.cost(M.H, M.f, M.g, u, x))), 'the Lagrangian is stationary and V is the cost')
    else:
        u, V = E.u(x.copy()), E.V(x.copy())
        if u is None:
            c.check(c.not_(admissible), 'None only if the program is infeasible (some region covers every feasible state)')
        elif lookup(c, M, E, x, nu, m, u, V):
            compare(c, M, x, u, V)
    acts = [tuple(sorted(r.active_set)) for r in regions]
    c.check(len(set(acts)) == len(acts), 'every active set is listed once')


def cover_mpc(c):
    c.opts(approx=True)
    M, ctl = controller(c)[:2]
    ctl.store_explicit_solution(**c.cfg.get('kw', {}))
    covered(c, M, ctl.explicit_solution, M.A['x'].shape[1], M.A['u'].shape[1], M.b.shape[0])


_m = [dict(sys='11a', rhs='11a', N=1, early=True), dict(sys='11a', rhs='11a', N=2), dict(sys='11a', rhs='11s', N=2), dict(sys='21a', rhs='21a', N=1), dict(sys='12a', rhs='12a', N=1), dict(sys='21a', rhs='21s', N=2, early=True),
      dict(sys='11a', rhs='11s', N=3), dict(sys='21a', rhs='21a', N=2), dict(sys='12a', rhs='12a', N=2)]
_g = [dict(p='g%d' % i) for i in range(14)]
_p = [dict(p='a1'), dict(p='b1', f=[1, -1, 2]), dict(p='c1', f=[1, 0, 1]), dict(p='d1'), dict(p='a1', free=(0, 2)), dict(p='a1', f=[1, 2], free=(1, 3)), dict(p='d1', f=[1, -1, 0, 2]), dict(p='b1', free=(0, 4)), dict(p='a1', free=(0, 1, 2, 3))]
_k = [dict(p=k, box=2) for k in ('chain6', 'grid3')]
_w = [dict(sys='11a', rhs='11a', N=4), dict(sys='11a', rhs='11s', N=5), dict(sys='21a', rhs='21a', N=2), dict(sys='21a', rhs='21s', N=3), dict(sys='12a', rhs='12a', N=2), dict(sys='12a', rhs='12a', N=3), dict(sys='21a', rhs='21a', N=3), dict(sys='21a', rhs='21a', N=4)]
_v = [dict(p=k, box=2) for k in ('chain12', 'chain20', 'grid3', 'grid4', 'grid5')] + [dict(p='chain6', box=2, again=1), dict(p='chain12', box=2, kw=dict(step_size=1e-4, verbose=True)), dict(p='grid3', box=2, kw=dict(step_size=1e-6), again=1), dict(p='chain40', box=2)]
HARNESSES = [
    Harness('clipped', prog, _k, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=8),
    Harness('cover_mpc', cover_mpc, _w, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=8),
    Harness('cover', cover, _v, quick=-1, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=2),
    Harness('mpc', mpc, _m, quick=6, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=8),
    Harness('generic', prog, _g, quick=14, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=8),
    Harness('prog', prog, _p, quick=7, witnesses=8, witness_margins=[0.0625, 0.01], witness_narrow=True, bound=8),
]
