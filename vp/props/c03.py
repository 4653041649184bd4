"""Discretisation: explicit Euler and zero-order hold."""
from ..runner import Harness

BOUNDS = 'nx <= 3, nu <= 2; A, B, c and the step h >= 0 are free reals; several discretisations in a row, float and integer arrays, constant A, B up to nx = 8, nu = 4; zero-order hold: general A up to nx = 3 through the block identity of the matrix exponential, nilpotent and diagonal A in closed form'
OUTSIDE = 'the numerical algorithm of scipy.linalg.expm (Pade approximation) and its rounding; dimensions above the bound'
ASSUMPTIONS = ['scipy.linalg.expm returns the exact matrix exponential; for a general block matrix [[A, G], [0, 0]] it is [[exp A, phi(A) G], [0, I]] with phi(A) = int_0^1 exp(A s) ds']


def matrix(c, nx, kind):
    if kind == 'full':
        return c.mat('A', nx, nx)
    M = [[0] * nx for _ in range(nx)]
    for i in range(nx):
        for j in range(nx):
            if (kind == 'nil' and j > i) or (kind == 'low' and j < i) or (kind == 'diag' and i == j):
                M[i][j] = c.real('A[%d,%d]' % (i, j))
    return c.arr(M, (nx, nx))


def same(c, S, ref, label, offset=True):
    A, B, o = ref
    ok = [c.eq(S[0], A), c.eq(S[1], B)]
    if offset:
        ok.append(c.eq(S[2], o))
    c.check(c.and_(*ok), label)


def euler(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    A, B, o, h = c.mat('A', nx, nx), c.mat('B', nx, nu), c.vec('c', nx), c.real('h')
    c.assume(c.ge(h, 0))
    ref = (c.np.eye(nx) + A * h, B * h, o * h)
    a = [z.copy() for z in (A, B, o)]
    same(c, c.disc.explicit_euler(a[0], a[1], a[2], h), ref, 'explicit_euler: x + h (A x + B u + c)')
    S = c.dts.AffineSystem.from_continuous(a[0], a[1], a[2], h, 'explicit_euler')
    same(c, (S.A, S.B, S.c), ref, 'AffineSystem.from_continuous with explicit_euler')
    S = c.dts.LinearSystem.from_continuous(a[0], a[1], h, 'explicit_euler')
    same(c, (S.A, S.B), ref, 'LinearSystem.from_continuous with explicit_euler', False)
    c.check(c.and_(c.eq(a[0], A), c.eq(a[1], B), c.eq(a[2], o)), 'discretising leaves the continuous-time matrices unchanged')


def zoh(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    A, B, o, h = matrix(c, nx, c.cfg['kind']), c.mat('B', nx, nu), c.vec('c', nx), c.real('h')
    c.assume(c.ge(h, 0))
    X, F = c.exp_phi(A * h)
    ref = (X, F.dot(B * h), F.dot(o * h))
    a = [z.copy() for z in (A, B, o)]
    same(c, c.disc.zero_order_hold(a[0], a[1], a[2], h), ref, 'zero_order_hold: exp(Ah), int exp(As) ds B, int exp(As) ds c')
    S = c.dts.AffineSystem.from_continuous(a[0], a[1], a[2], h)
    same(c, (S.A, S.B, S.c), ref, 'AffineSystem.from_continuous defaults to zero_order_hold')
    S = c.dts.AffineSystem.from_continuous(a[0], a[1], a[2], h, 'zero_order_hold')
    same(c, (S.A, S.B, S.c), ref, 'AffineSystem.from_continuous with zero_order_hold')
    S = c.dts.LinearSystem.from_continuous(a[0], a[1], h)
    same(c, (S.A, S.B), ref, 'LinearSystem.from_continuous defaults to zero_order_hold', False)
    S = c.dts.LinearSystem.from_continuous(a[0], a[1], h, 'zero_order_hold')
    same(c, (S.A, S.B), ref, 'LinearSystem.from_continuous with zero_order_hold', False)
    c.check(c.and_(c.eq(a[0], A), c.eq(a[1], B), c.eq(a[2], o)), 'discretising leaves the continuous-time matrices unchanged')


def irregular(m, n, k):
    return [[(7 * i + 5 * j + 3 * k + i * j) % 11 - 5 for j in range(n)] for i in range(m)]


def again(c):
    """several discretisations in a row, larger dimensions, integer matrices, a free step and a free offset."""
    nx, nu = c.cfg['nx'], c.cfg['nu']
    mk = c.ints if c.cfg.get('int') else c.arr
    o, h, k = c.vec('c', nx), c.real('h'), c.real('k')
    c.assume(c.and_(c.ge(h, 0), c.ge(k, 0)))
    A1, B1 = mk(irregular(nx, nx, 1)), mk(irregular(nx, nu, 2))
    A2, B2 = mk(irregular(nx, nx, 3)), mk(irregular(nx, nu, 4))
    zero = mk([0] * nx)
    out = []
    for A, B, w, s in ((A1, B1, o, h), (A2, B1, o, h), (A1, B1, o, k), (A1, B2, zero, h), (A1, B1, o, h)):
        ref = (c.np.eye(nx) + c.arr(A) * s, c.arr(B) * s, c.arr(w) * s)
        R = c.disc.explicit_euler(A, B, w, s)
        same(c, R, ref, 'explicit_euler: x + h (A x + B u + c), whatever was discretised before')
        S = c.dts.AffineSystem.from_continuous(A, B, w, s, 'explicit_euler')
        same(c, (S.A, S.B, S.c), ref, 'AffineSystem.from_continuous with explicit_euler, whatever was discretised before')
        T = c.dts.LinearSystem.from_continuous(A, B, s, 'explicit_euler')
        same(c, (T.A, T.B), ref, 'LinearSystem.from_continuous with explicit_euler, whatever was discretised before', False)
        out += [(R, ref), ((S.A, S.B, S.c), ref)]
    for R, ref in out:
        same(c, R, ref, 'systems built before stay as they were')
    c.check(c.and_(c.eq(A1, c.arr(irregular(nx, nx, 1))), c.eq(B2, c.arr(irregular(nx, nu, 4))), c.eq(zero, c.arr([0] * nx))), 'discretising leaves the continuous-time matrices unchanged')


def zoh_again(c):
    """the same for zero-order hold: nilpotent matrices, for which the exponential is a polynomial in the step."""
    nx, nu = c.cfg['nx'], c.cfg['nu']
    mk = c.ints if c.cfg.get('int') else c.arr
    o, h, k = c.vec('c', nx), c.real('h'), c.real('k')
    c.assume(c.and_(c.ge(h, 0), c.ge(k, 0)))

    def nil(s):
        M = irregular(nx, nx, s)
        return [[M[i][j] if j > i else 0 for j in range(nx)] for i in range(nx)]
    A1, B1, A2, B2 = mk(nil(1)), mk(irregular(nx, nu, 2)), mk(nil(3)), mk(irregular(nx, nu, 4))
    zero = mk([0] * nx)
    out = []
    for A, B, w, s in ((A1, B1, o, h), (A2, B1, o, h), (A1, B1, o, k), (A1, B2, zero, h), (A1, B1, o, h), (A1 * 0, B1, o, h), (A1, B1 * 0, o, h)):
        X, F = c.exp_phi(c.arr(A) * s)
        ref = (X, F.dot(c.arr(B) * s), F.dot(c.arr(w) * s))
        R = c.disc.zero_order_hold(A, B, w, s)
        same(c, R, ref, 'zero_order_hold, whatever was discretised before')
        S = c.dts.AffineSystem.from_continuous(A, B, w, s)
        same(c, (S.A, S.B, S.c), ref, 'AffineSystem.from_continuous, whatever was discretised before')
        T = c.dts.LinearSystem.from_continuous(A, B, s)
        same(c, (T.A, T.B), ref, 'LinearSystem.from_continuous, whatever was discretised before', False)
        out += [(R, ref), ((S.A, S.B, S.c), ref)]
    for R, ref in out:
        same(c, R, ref, 'systems built before stay as they were')
    c.check(c.and_(c.eq(A1, c.arr(nil(1))), c.eq(B2, c.arr(irregular(nx, nu, 4))), c.eq(zero, c.arr([0] * nx))), 'discretising leaves the continuous-time matrices unchanged')


def reject(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    A, B, o, h = c.mat('A', nx, nx), c.mat('B', nx, nu), c.vec('c', nx), c.real('h')
    m = c.cfg['method']
    bad = c.lt(h, 0)
    fns = {'explicit_euler': c.disc.explicit_euler, 'zero_order_hold': c.disc.zero_order_hold}
    rs = [c.call(c.dts.AffineSystem.from_continuous, A, B, o, h, m), c.call(c.dts.LinearSystem.from_continuous, A, B, h, m)]
    if m in fns:
        rs.append(c.call(fns[m], A, B, o, h))
    for r in rs:
        if m not in fns:
            c.check(r.raised(ValueError), 'an unknown method is rejected with a ValueError')
        elif r.ok:
            c.check(c.not_(bad), 'a negative time step is rejected')
        else:
            c.check(c.and_(bad, r.raised(ValueError)), 'only a negative time step is rejected, with a ValueError')


_d = [(1, 1), (2, 1), (2, 2), (3, 1), (1, 2), (3, 2)]
HARNESSES = [
    Harness('euler', euler, [dict(nx=a, nu=b) for a, b in _d], witnesses=2),
    Harness('zoh', zoh, [dict(nx=a, nu=b, kind=k) for a, b in _d for k in ('nil', 'full', 'diag', 'low')
                         if not (a == 3 and k == 'full' and b == 2)], witnesses=2, bound=2),
    Harness('again', again, [dict(nx=2, nu=1), dict(nx=2, nu=2, int=True), dict(nx=5, nu=3), dict(nx=3, nu=4, int=True), dict(nx=8, nu=2)], witnesses=1),
    Harness('zoh_again', zoh_again, [dict(nx=2, nu=1), dict(nx=2, nu=2, int=True), dict(nx=4, nu=3), dict(nx=3, nu=4, int=True), dict(nx=5, nu=1), dict(nx=6, nu=2)], witnesses=1, bound=2),
    Harness('reject', reject, [dict(nx=a, nu=b, method=m) for a, b in _d[:3] for m in ('explicit_euler', 'zero_order_hold', 'tustin', '')],
            witnesses=3),
]
