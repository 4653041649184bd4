"""Sympy constructors produce matrices that reproduce the expression at every point."""
from ..runner import Harness

BOUNDS = 'up to 6 states, 4 inputs and 7 rows, variable names in any order; all coefficients and offsets of the affine expressions are free reals, the expressions are written in expanded, factored and nested form; evaluated at a free point'
OUTSIDE = 'expressions that are affine only after simplification rules sympy does not apply by itself (e.g. trigonometric identities); larger dimensions'
ASSUMPTIONS = ['sympy itself (differentiation and substitution) is executed, not encoded']


def exprs(c, name, rows, vars_, form, offset=True):
    """list of (sympy expression, function of values)."""
    import sympy as sp
    out, ref = [], []
    for i in range(rows):
        co = [c.sp('%s%d_%d' % (name, i, j)) for j in range(len(vars_))]
        k = c.sp('%s%d_off' % (name, i)) if offset else (0, 0)
        e = 0
        for (g, _), v in zip(co, vars_):
            e = e + g * v
        if form == 'factored' and len(vars_) > 1:
            e = 2 * (co[0][0] * vars_[0] / 2 + (k[0] - 1) / 2) + 1
            for (g, _), v in zip(co[1:], vars_[1:]):
                e = e + g * (v + 3) - 3 * g
        elif form == 'product':
            # (v + 1)(v + 2) - v^2 - 2 = 3 v
            v = vars_[-1]
            e = sp.expand(e) + k[0] + ((v + 1) * (v + 2) - v ** 2 - 3 * v - 2)
        else:
            e = e + k[0]
        out.append(e)
        ref.append(([v for _, v in co], k[1]))
    return sp.Matrix(out), ref


def value(c, ref, z):
    return c.arr([sum((a * b for a, b in zip(co, z)), k + 0 * z[0]) for co, k in ref])


NAMES = {'x': ['q', 'c_1', 'Z', 'a', 'x10', 'x2'], 'u': ['b', 'M', 'aa', 'u']}


def syms(n, s, names=False):
    """names: symbols whose order is not the alphabetical one."""
    import sympy as sp
    if names:
        return sp.Matrix([sp.Symbol(t, real=True) for t in NAMES[s][:n]])
    return sp.Matrix(sp.symbols('%s0:%d' % (s, n)))


def dynamics(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    x, u = syms(nx, 'x', c.cfg.get('names')), syms(nu, 'u', c.cfg.get('names'))
    e, ref = exprs(c, 'e', nx, list(x) + list(u), c.cfg['form'])
    if c.cfg['form'] == 'product':
        e = e.applyfunc(lambda t: t.expand())
    S = c.dts.AffineSystem.from_symbolic(x, u, e)
    xv, uv = c.vec('xv', nx), c.vec('uv', nu)
    want = value(c, ref, list(xv) + list(uv))
    c.check(c.eq(S.A.dot(xv) + S.B.dot(uv) + S.c, want), 'AffineSystem.from_symbolic: A x + B u + c is the expression')
    off = c.arr([k for _, k in ref])
    r = c.call(c.dts.LinearSystem.from_symbolic, x, u, e)
    if r.ok:
        c.check(c.and_(c.le(off, 1e-5), c.ge(off, -1e-5)), 'LinearSystem.from_symbolic rejects an offset')
        c.check(c.eq(r.value.A.dot(xv) + r.value.B.dot(uv) + off, want), 'LinearSystem.from_symbolic: A x + B u')
    else:
        c.check(c.and_(r.raised(ValueError), c.not_(c.eq(off, off * 0))), 'LinearSystem.from_symbolic rejects only an offset, with a ValueError')


def continuous(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    x, u = syms(nx, 'x', c.cfg.get('names')), syms(nu, 'u', c.cfg.get('names'))
    m = c.cfg['method']
    h = c.real('h')
    c.assume(c.ge(h, 0))
    e, ref = exprs(c, 'e', nx, list(x) + list(u), 'expanded', c.cfg['offset'])
    A = c.arr([co[:nx] for co, _ in ref])
    B = c.arr([co[nx:] for co, _ in ref], (nx, nu))
    o = c.arr([k for _, k in ref])
    if m == 'explicit_euler':
        want = c.np.eye(nx) + A * h, B * h, o * h
    else:
        X, F = c.exp_phi(A * h)
        want = X, F.dot(B * h), F.dot(o * h)
    args = (m,) if c.cfg.get('explicit', True) else ()
    S = c.dts.AffineSystem.from_symbolic_continuous(x, u, e, h, *args)
    c.check(c.and_(c.eq(S.A, want[0]), c.eq(S.B, want[1]), c.eq(S.c, want[2])),
            'AffineSystem.from_symbolic_continuous discretises the expression')
    r = c.call(c.dts.LinearSystem.from_symbolic_continuous, x, u, e, h, *args)
    if r.ok:
        c.check(c.and_(c.le(o, 1e-5), c.ge(o, -1e-5)), 'LinearSystem.from_symbolic_continuous rejects an offset')
        c.check(c.and_(c.eq(r.value.A, want[0]), c.eq(r.value.B, want[1])), 'LinearSystem.from_symbolic_continuous discretises the expression')
    else:
        c.check(c.and_(r.raised(ValueError), c.not_(c.eq(o, o * 0))), 'LinearSystem.from_symbolic_continuous rejects only an offset')


def polyhedron(c):
    n, m, k = c.cfg['n'], c.cfg['m'], c.cfg['k']
    x = syms(n, 'x', c.cfg.get('names'))
    ineq, ri = exprs(c, 'i', m, list(x), c.cfg['form'])
    eq, re = exprs(c, 'q', k, list(x), c.cfg['form']) if k else (None, [])
    if c.cfg['form'] == 'product':
        ineq = ineq.applyfunc(lambda t: t.expand())
        eq = eq.applyfunc(lambda t: t.expand()) if k else None
    z = c.vec('z', n)
    P = c.geom.Polyhedron.from_symbolic(x, ineq, eq) if k else c.geom.Polyhedron.from_symbolic(x, ineq)
    c.check(c.eq(P.A.dot(z) - P.b, value(c, ri, list(z))), 'Polyhedron.from_symbolic: A x - b is the inequality')
    c.check(P.C.shape == (k, n), 'as many equalities as given')
    if k:
        c.check(c.eq(P.C.dot(z) - P.d, value(c, re, list(z))), 'Polyhedron.from_symbolic: C x - d is the equality')
    A0, b0 = c.mat('A', 2, n), c.vec('b', 2)
    Q = c.geom.Polyhedron(A0.copy(), b0.copy())
    Q.add_symbolic_inequality(x, ineq)
    c.check(Q.A.shape == (2 + m, n), 'add_symbolic_inequality adds its rows')
    c.check(c.and_(c.eq(Q.A[:2].dot(z) - Q.b[:2], A0.dot(z) - b0), c.eq(Q.A[2:].dot(z) - Q.b[2:], value(c, ri, list(z)))),
            'add_symbolic_inequality keeps the old rows and adds ineq(x) <= 0')
    if k:
        Q.add_symbolic_equality(x, eq)
        c.check(Q.C.shape == (k, n), 'add_symbolic_equality adds its rows')
        c.check(c.eq(Q.C.dot(z) - Q.d, value(c, re, list(z))), 'add_symbolic_equality adds eq(x) = 0')


def nonaffine(c):
    import sympy as sp
    x, u = syms(2, 'x'), syms(1, 'u')
    g, _ = c.sp('g')
    bad = {'square': sp.Matrix([x[0] ** 2 + g * u[0], x[1]]), 'bilinear': sp.Matrix([x[0] + g, x[1] * u[0]]),
           'foreign': sp.Matrix([x[0] * sp.Symbol('other'), x[1] + g]),
           'input': sp.Matrix([x[0] + g, x[1] + u[0] ** 2]), 'last': sp.Matrix([x[0] + g * u[0], x[0] + x[1] ** 3]),
           'sine': sp.Matrix([g * x[0], x[1] + sp.sin(u[0])]), 'fraction': sp.Matrix([x[0] / (1 + x[1]), g * x[1]]),
           'product': sp.Matrix([x[0] * x[1], g * u[0]]), 'offset': sp.Matrix([x[0] + sp.Symbol('other'), x[1] + g])}[c.cfg['kind']]
    for cls in (c.dts.AffineSystem, c.dts.LinearSystem):
        c.check(c.call(cls.from_symbolic, x, u, bad).raised(TypeError), 'a non-affine update is rejected with a TypeError')
        c.check(c.call(cls.from_symbolic_continuous, x, u, bad, 1.).raised(TypeError), 'a non-affine derivative is rejected with a TypeError')
    y = sp.Matrix(list(x) + list(u))
    c.check(c.call(c.geom.Polyhedron.from_symbolic, y, bad).raised(TypeError), 'a non-affine inequality is rejected with a TypeError')


HARNESSES = [
    Harness('dynamics', dynamics, [dict(nx=a, nu=b, form=f) for a, b in ((1, 1), (2, 1), (2, 2), (3, 1)) for f in ('expanded', 'factored', 'product')]
            + [dict(nx=3, nu=2, form=f, names=True) for f in ('expanded', 'factored')] + [dict(nx=6, nu=4, form='expanded', names=True), dict(nx=2, nu=1, form='product', names=True)],
            witnesses=3, tol=1e-6),
    Harness('continuous', continuous, [dict(nx=a, nu=b, method=m, offset=o) for a, b in ((1, 1), (2, 1), (3, 1))
                                       for m in ('explicit_euler', 'zero_order_hold') for o in (True, False)]
            + [dict(nx=2, nu=1, method='zero_order_hold', offset=True, explicit=False), dict(nx=2, nu=2, method='explicit_euler', offset=True, names=True),
                                            dict(nx=4, nu=2, method='explicit_euler', offset=True)], witnesses=2, bound=2),
    Harness('polyhedron', polyhedron, [dict(n=n, m=m, k=k, form=f) for n, m, k in ((1, 1, 0), (2, 2, 1), (2, 1, 2), (3, 2, 1), (3, 3, 2))
                                       for f in ('expanded', 'factored', 'product')]
            + [dict(n=4, m=5, k=2, form='expanded', names=True), dict(n=3, m=2, k=1, form='factored', names=True), dict(n=6, m=7, k=1, form='expanded', names=True)], witnesses=2),
    Harness('nonaffine', nonaffine, [dict(kind=k) for k in ('square', 'bilinear', 'foreign', 'input', 'last', 'sine', 'fraction', 'product', 'offset')], witnesses=1),
]
