"""PWA simulation: the mode taken is a mode whose domain contains (x, u); failure iff no domain does."""
from ..runner import Harness

BOUNDS = 'nx, nu <= 2, at most 3 modes, 1 to 3 rows per domain and at most one equality, horizon N <= 5; constant data (float and integer arrays) up to nx = 5, nu = 3, 12 modes, 12 rows; dynamics, offsets, right-hand sides, states and inputs are free reals (domain normals free in the 1+1 dimensional cases, fixed rational rows otherwise)'
OUTSIDE = 'larger systems; points within 1e-6 of the boundary of a domain; floating-point rounding'
TOL = 1e-6


def inside(c, D, z, tol):
    """D = (A, b, C, d); tol > 0 relaxes, tol < 0 tightens (equalities exact)."""
    A, b, C, d = D
    xs = [c.le(A.dot(z), b + tol)]
    if C is not None:
        xs += [c.le(C.dot(z), d + abs(tol)), c.ge(C.dot(z), d - abs(tol))]
    return c.and_(*xs)


def exactly(c, D, z):
    A, b, C, d = D
    xs = [c.le(A.dot(z), b)]
    if C is not None:
        xs.append(c.eq(C.dot(z), d))
    return c.and_(*xs)


ROWS = {
    2: [[[1, 0], [-1, 2]], [[-1, 0]], [[1, 1], [0, -1], [-3, 1]]],
    3: [[[1, 0, 0], [0, -1, 1]], [[-1, 0, 2], [0, 1, 0]], [[0, 0, -1]]],
    4: [[[1, 0, 0, -1], [0, 2, 0, 0]], [[-1, 0, 1, 0]]],
}
EQS = {2: [[2, -1]], 3: [[1, -1, 1], [0, 2, -1]], 4: [[1, 0, -1, 2]]}


def domains(c, nx, nu, nm, free, eqs):
    n = nx + nu
    out = []
    for i in range(nm):
        if free:
            A = c.mat('F%d' % i, 2, n)
        else:
            A = c.arr(ROWS[n][i % len(ROWS[n])])
        b = c.vec('h%d' % i, A.shape[0])
        C = d = None
        if eqs and i != 1:
            C = c.arr(EQS[n])
            d = c.vec('d%d' % i, C.shape[0])
        out.append((A, b, C, d))
    return out


def build(c):
    nx, nu, nm = c.cfg['nx'], c.cfg['nu'], c.cfg['nm']
    data = [(c.mat('A%d' % i, nx, nx), c.mat('B%d' % i, nx, nu), c.vec('c%d' % i, nx)) for i in range(nm)]
    doms = domains(c, nx, nu, nm, c.cfg.get('free'), c.cfg.get('eq'))
    S = [c.dts.AffineSystem(*[z.copy() for z in d]) for d in data]
    D = [c.geom.Polyhedron(A.copy(), b.copy(), None if C is None else C.copy(), None if d is None else d.copy())
         for A, b, C, d in doms]
    return c.dts.PieceWiseAffineSystem(S, D), data, doms


def cat(c, x, u):
    return c.arr(list(x) + list(u))


def mode(c):
    P, data, doms = build(c)
    x, u = c.vec('x', c.cfg['nx']), c.vec('u', c.cfg['nu'])
    i = P.get_mode(x.copy(), u.copy())
    z = cat(c, x, u)
    if i is None:
        c.check(c.and_(*[c.not_(exactly(c, D, z)) for D in doms]), 'get_mode returns None only if no domain contains (x, u)')
    else:
        c.check(0 <= i < len(doms), 'the mode is an index of a domain')
        c.check(inside(c, doms[i], z, TOL), 'the domain of the returned mode contains (x, u)')


def simulate(c):
    P, data, doms = build(c)
    nx, nu, N = c.cfg['nx'], c.cfg['nu'], c.cfg['N']
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    last = [x0]
    for k in range(1, N + 1):
        r = c.call(P.simulate, x0.copy(), [u.copy() for u in us[:k]])
        z = cat(c, last[-1], us[k - 1])
        if not r.ok:
            c.check(r.raised(ValueError), 'an infeasible point is reported by a ValueError')
            c.check(c.and_(*[c.not_(exactly(c, D, z)) for D in doms]),
                    'simulate raises only if the point reached is in no domain')
            return
        xs, ms = r.value
        c.check(len(xs) == k + 1 and len(ms) == k, 'simulate returns k+1 states and k modes')
        m = ms[-1]
        c.check(inside(c, doms[m], z, TOL), 'each step is taken in a mode whose domain contains (x(t), u(t))')
        A, B, o = data[m]
        c.check(c.eq(xs[-1], A.dot(last[-1]) + B.dot(us[k - 1]) + o), 'each step applies the dynamics of its mode')
        c.check(c.and_(*[c.eq(a, b) for a, b in zip(xs, last)]), 'the trajectory starts at x0 and extends the shorter one')
        last = [x.copy() for x in xs]


def outside(c):
    """a point in some domain is never rejected; a point clearly out of all is never accepted."""
    P, data, doms = build(c)
    nx, nu = c.cfg['nx'], c.cfg['nu']
    x, u = c.vec('x0', nx), c.vec('u0', nu)
    z = cat(c, x, u)
    r = c.call(P.simulate, x.copy(), [u.copy()])
    if r.ok:
        c.check(c.or_(*[inside(c, D, z, TOL) for D in doms]), 'a point outside every domain is rejected')
    else:
        c.check(c.and_(*[c.not_(exactly(c, D, z)) for D in doms]), 'a point inside a domain is accepted')


SIGNS = [[[1, 0], [0, 1]], [[-1, 0], [0, 1]], [[1, 0], [0, -1]], [[-1, 0], [0, -1]], [[1, 1], [-1, 1]]]


def sequence(c):
    """one system asked again and again: modes of other points, simulations of other inputs in between."""
    nm, N = c.cfg['nm'], c.cfg['N']
    data = [(c.arr([[c.const((i + 2) / 2.)]]), c.arr([[c.const(1 - i)]]), c.vec('c%d' % i, 1)) for i in range(nm)]
    doms = []
    for i in range(nm):
        A = c.arr(SIGNS[i])
        C, d = (c.arr([[1, 1]]), c.vec('d%d' % i, 1)) if i in c.cfg.get('eq', ()) else (None, None)
        doms.append((A, c.vec('h%d' % i, 2), C, d))
    S = [c.dts.AffineSystem(*[z.copy() for z in d]) for d in data]
    D = [c.geom.Polyhedron(A.copy(), b.copy(), None if C is None else C.copy(), None if d is None else d.copy()) for A, b, C, d in doms]
    P = c.dts.PieceWiseAffineSystem(S, D)
    x = c.vec('x', 1)
    u = c.vec('u', 1)
    # before: another point, in arrays that are used again
    y, v = c.arr([c.const(a) for a in c.cfg['first'][:1]]), c.arr([c.const(a) for a in c.cfg['first'][1:]])
    P.get_mode(y, v)
    c.call(P.simulate, y, [v])
    y[:], v[:] = x, u
    i = P.get_mode(y, v)
    z = cat(c, x, u)
    if i is None:
        c.check(c.and_(*[c.not_(exactly(c, E, z)) for E in doms]), 'get_mode returns None only if no domain contains (x, u)')
    else:
        c.check(inside(c, doms[i], z, TOL), 'the domain of the returned mode contains (x, u)')
    r = c.call(P.simulate, y, [v] * N)
    c.check(c.and_(c.eq(y, x), c.eq(v, u)), 'the state and the inputs are left alone')
    got = r.value if r.ok else None
    if not r.ok:
        c.check(r.raised(ValueError), 'an infeasible point is reported by a ValueError')
        # some trajectory through domains that contain its points reaches a point in no domain

        def stuck(x, k):
            z = cat(c, x, u)
            out = [c.and_(*[c.not_(exactly(c, E, z)) for E in doms])]
            if k > 1:
                for E, (A, B, o) in zip(doms, data):
                    out.append(c.and_(inside(c, E, z, TOL), stuck(A.dot(x) + B.dot(u) + o, k - 1)))
            return c.or_(*out)
        c.check(stuck(x, N), 'simulate raises only if the point reached is in no domain')
        return
    xs, ms = got
    c.check(len(xs) == N + 1 and len(ms) == N, 'simulate returns N+1 states and N modes')
    c.check(c.eq(xs[0], x), 'the trajectory starts at x0')
    for t in range(N):
        A, B, o = data[ms[t]]
        c.check(inside(c, doms[ms[t]], cat(c, xs[t], u), TOL), 'each step is taken in a mode whose domain contains (x(t), u(t))')
        c.check(c.eq(xs[t + 1], A.dot(xs[t]) + B.dot(u) + o), 'each step applies the dynamics of its mode')


def wide(c):
    """many modes, many rows, more states and inputs; constant data, free state, input and one right-hand side per domain."""
    nx, nu, nm, m = c.cfg['nx'], c.cfg['nu'], c.cfg['nm'], c.cfg['m']
    n = nx + nu
    mk = c.ints if c.cfg.get('int') else c.arr

    def irregular(a, b, k):
        return [[(5 * i + 7 * j + 3 * k + i * j * (k + 1)) % 9 - 4 for j in range(b)] for i in range(a)]
    data, doms = [], []
    for i in range(nm):
        data.append((mk(irregular(nx, nx, i)), mk(irregular(nx, nu, i + 1)), mk([(i + j) % 5 - 2 for j in range(nx)])))
        A = mk(irregular(m, n, 2 * i + 1))
        b = mk([(2 * i + j) % 4 for j in range(m)])
        if not c.cfg.get('int'):
            b = c.arr(list(b[:-1]) + [c.real('h%d' % i)])
        C, d = (mk([[(i + j) % 3 - 1 for j in range(n)]]), mk([i % 2])) if i in c.cfg.get('eq', ()) else (None, None)
        doms.append((A, b, C, d))
    P = c.dts.PieceWiseAffineSystem([c.dts.AffineSystem(*d) for d in data], [c.geom.Polyhedron(*D) for D in doms])
    x = c.ints([j % 3 - 1 for j in range(nx)]) if c.cfg.get('ix') else c.vec('x', nx)
    u = c.ints([1 - j for j in range(nu)]) if c.cfg.get('iu') else c.vec('u', nu)
    z = cat(c, x, u)
    i = P.get_mode(x, u)
    if i is None:
        c.check(c.and_(*[c.not_(exactly(c, E, z)) for E in doms]), 'get_mode returns None only if no domain contains (x, u)')
    else:
        c.check(inside(c, doms[i], z, TOL), 'the domain of the returned mode contains (x, u)')
    r = c.call(P.simulate, x, [u])
    if r.ok:
        xs, ms = r.value
        A, B, o = data[ms[0]]
        c.check(inside(c, doms[ms[0]], z, TOL), 'each step is taken in a mode whose domain contains (x(t), u(t))')
        c.check(c.and_(c.eq(xs[0], x), c.eq(xs[1], A.dot(x) + B.dot(u) + o)), 'each step applies the dynamics of its mode')
    else:
        c.check(c.and_(r.raised(ValueError), *[c.not_(exactly(c, E, z)) for E in doms]), 'simulate raises a ValueError only if the point reached is in no domain')


def make():
    m = [dict(nx=1, nu=1, nm=2, free=True), dict(nx=1, nu=1, nm=3), dict(nx=1, nu=1, nm=2, eq=True), dict(nx=2, nu=1, nm=2),
         dict(nx=2, nu=1, nm=3, eq=True), dict(nx=1, nu=1, nm=1), dict(nx=2, nu=2, nm=2), dict(nx=1, nu=2, nm=2, eq=True),
         dict(nx=2, nu=2, nm=2, eq=True), dict(nx=1, nu=1, nm=3, free=True)]
    s = [dict(nx=1, nu=1, nm=2, N=2), dict(nx=2, nu=1, nm=2, N=2), dict(nx=1, nu=1, nm=2, N=1, free=True),
         dict(nx=2, nu=1, nm=2, N=1, eq=True), dict(nx=1, nu=1, nm=3, N=1, eq=True), dict(nx=1, nu=1, nm=3, N=2),
         dict(nx=1, nu=1, nm=2, N=3), dict(nx=1, nu=2, nm=2, N=2), dict(nx=1, nu=1, nm=2, N=2, eq=True)]
    return m, s


_m, _s = make()
_q = [dict(nm=2, N=2, first=[0, 0]), dict(nm=3, N=2, first=[1, -1]), dict(nm=2, N=3, first=[2, 1]), dict(nm=2, N=2, first=[0, 0], eq=(1,)), dict(nm=4, N=1, first=[0, 0]), dict(nm=5, N=1, first=[-1, 1]), dict(nm=3, N=3, first=[0, 1]),
      dict(nm=2, N=5, first=[0, 0])]
HARNESSES = [
    Harness('sequence', sequence, _q, witnesses=4),
    Harness('wide', wide, [dict(nx=3, nu=2, nm=3, m=4), dict(nx=1, nu=1, nm=8, m=3), dict(nx=2, nu=2, nm=4, m=9), dict(nx=2, nu=1, nm=5, m=2, eq=(1, 4)), dict(nx=5, nu=3, nm=2, m=12, eq=(0,)),
                           dict(nx=2, nu=1, nm=3, m=3, int=True), dict(nx=1, nu=2, nm=4, m=2, int=True, eq=(2,)), dict(nx=1, nu=1, nm=12, m=2)] +
            [dict(nx=2, nu=1, nm=3, m=3, ix=True), dict(nx=1, nu=1, nm=4, m=2, ix=True), dict(nx=1, nu=2, nm=3, m=3, iu=True), dict(nx=1, nu=1, nm=4, m=2, iu=True, int=True), dict(nx=1, nu=1, nm=3, m=2, ix=True, int=True)], witnesses=6),
    Harness('mode', mode, _m, witnesses=4),
    Harness('simulate', simulate, _s, quick=8, witnesses=4),
    Harness('outside', outside, _m, witnesses=4),
]
