"""Stand-ins for scipy and the other libraries pympc calls, as exact computations or contracts."""
import types
from itertools import combinations
import math as rmath
import numpy as rnp
import scipy.linalg as rsl

from . import sym as S
from .engine import PathEnd
from . import linalg as L
from . import symnp as N
from .sym import Sym, B, ZERO, ONE, Unsupported, and_, or_, not_, cmp0


# ------------------------------------------------------------------ scipy.linalg

def block_diag(*arrs):
    if not arrs:
        return N.f_zeros((1, 0))
    ms = []
    for a in arrs:
        a = N.raw(a)
        if not isinstance(a, rnp.ndarray) or a.ndim == 0:
            a = N.asym([[a]]).view(rnp.ndarray)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        if a.ndim > 2:
            raise ValueError('arguments in the following positions have dimension greater than 2')
        ms.append(a)
    out = N.f_zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)))
    r = c = 0
    for m in ms:
        out[r:r + m.shape[0], c:c + m.shape[1]] = m
        r += m.shape[0]
        c += m.shape[1]
    return out


def null_space(a, *x, **k):
    a = N.raw(a)
    if a.shape[0] == 0:
        return N.f_eye(a.shape[1])
    Vt, r = L.orth_frame(N.mat(a), a.shape[1])
    return N.from_mat(Vt, (a.shape[1], a.shape[1]))[r:].T


def expm(a, **k):
    M = N.square(a, 'expm')
    n = len(M)
    # [[A, G], [0, 0]]: exp = [[exp A, phi(A) G], [0, I]] with phi(A) = int_0^1 exp(A s) ds
    m = n
    while m > 0 and _zero(M[m - 1]):
        m -= 1
    if m == n:
        return N.from_mat(exp_phi(M)[0], (n, n))
    if m == 0:
        return N.f_eye(n)
    A = [r[:m] for r in M[:m]]
    G = [r[m:] for r in M[:m]]
    X, F = exp_phi(A)
    T = L.mul(F, G)
    out = [X[i] + T[i] for i in range(m)]
    for i in range(m, n):
        out.append([ONE if j == i else ZERO for j in range(n)])
    return N.from_mat(out, (n, n))


def _zero(r):
    return all(not x.num for x in r)


def exp_phi(A):
    """(exp A, int_0^1 exp(A s) ds): exact for nilpotent and diagonal A, otherwise two unknown matrices
    (functions of A) related by phi A = A phi = exp A - I."""
    n = len(A)
    E = S.E
    P = L.eye(n)
    X, F = L.eye(n), L.eye(n)
    f = 1
    for k in range(1, n + 1):
        P = L.mul(P, A)
        if all(_zero(r) for r in P):
            return X, F
        f *= k
        c, d = Sym.of(1) / f, Sym.of(1) / (f * (k + 1))
        X = [[X[i][j] + P[i][j] * c for j in range(n)] for i in range(n)]
        F = [[F[i][j] + P[i][j] * d for j in range(n)] for i in range(n)]
    if all(i == j or not A[i][j].num for i in range(n) for j in range(n)):
        X = [[ZERO] * n for _ in range(n)]
        F = [[ZERO] * n for _ in range(n)]
        for i in range(n):
            a = A[i][i]
            X[i][i] = E.sym_exp(a)
            if bool(a == 0):
                F[i][i] = ONE
                E.add(cmp0(X[i][i] - 1, 'eq'))
            else:
                F[i][i] = (X[i][i] - 1) / a
        return X, F
    kk = ('exp_phi', tuple(x.key() for r in A for x in r))
    got = E.memo.get(kk)
    if got is None:
        X = [[E.fresh('eX') for _ in range(n)] for _ in range(n)]
        F = [[E.fresh('eF') for _ in range(n)] for _ in range(n)]
        for Q in (L.mul(F, A), L.mul(A, F)):
            for i in range(n):
                for j in range(n):
                    E.add(cmp0(Q[i][j] - X[i][j] + (1 if i == j else 0), 'eq'))
        got = E.memo[kk] = (X, F)
        E.note('contract: scipy.linalg.expm of [[A, G], [0, 0]] is [[exp A, phi(A) G], [0, I]]')
    return got


def solve_discrete_are(a, b, q, r, *x, **k):
    """contract: P symmetric, P = Q + A'PA - A'PB (R + B'PB)^-1 B'PA, P positive semidefinite."""
    A, Bm, Q, R = N.mat(a), N.mat(b), N.mat(q), N.mat(r)
    n = len(A)
    E = S.E
    kk = ('dare',) + tuple(tuple(x.key() for row in M for x in row) for M in (A, Bm, Q, R))
    P = E.memo.get(kk)
    if P is None:
        P = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                P[i][j] = P[j][i] = E.fresh('P')
        # principal minors of a positive semidefinite matrix
        E.add(and_(*[cmp0(P[i][i], 'ge') for i in range(n)]))
        if n == 2:
            E.add(cmp0(P[0][0] * P[1][1] - P[0][1] * P[0][1], 'ge'))
        Bt, At = L.tr(Bm), L.tr(A)
        G = L.mul(L.mul(Bt, P), Bm)
        G = [[G[i][j] + R[i][j] for j in range(len(G))] for i in range(len(G))]
        dg = L.det(G)
        if not dg.is_const:
            E.add(cmp0(dg, 'gt'), 'contract')      # R + B'PB is positive definite
        K = L.mul(L.mul(L.inv(G), L.mul(Bt, P)), A)
        rhs = L.mul(L.mul(At, P), A)
        sub = L.mul(L.mul(L.mul(At, P), Bm), K)
        for i in range(n):
            for j in range(i, n):
                E.add(cmp0(rhs[i][j] - sub[i][j] + Q[i][j] - P[i][j], 'eq'), 'contract')
        E.memo[kk] = P
        E.calls.append(('dare', A, Bm, Q, R, P))
    return N.from_mat(P, (n, n))


def cho_factor(a, lower=False, **k):
    C = N.l_cholesky(a)
    return (C if lower else C.T), lower


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a = N.raw(a)
    n = a.shape[0]
    T = N.asym([[a[i, j] if (j < i if lower else j > i) else ((1. if unit_diagonal else a[i, i]) if i == j else 0.)
                 for j in range(n)] for i in range(n)]).reshape(n, n)
    if trans not in (0, 'N'):
        T, lower = T.T, not lower
    B_ = N.asym(b)
    flat = B_.ndim == 1
    B_ = B_.reshape(n, -1)
    X = [[ZERO] * B_.shape[1] for _ in range(n)]
    for i in (range(n) if lower else range(n - 1, -1, -1)):
        d = Sym.of(T[i, i])
        if d.is_const and d.const == 0:
            raise N.RLinAlgError('singular matrix: resolution failed at diagonal %d' % i)
        for c in range(B_.shape[1]):
            s = Sym.of(B_[i, c])
            for j in (range(i) if lower else range(i + 1, n)):
                s = s - Sym.of(T[i, j]) * X[j][c]
            X[i][c] = s / d
    X = N.from_mat(X, (n, B_.shape[1]))
    return X.reshape(n) if flat else X


def cho_solve(c_and_lower, b, *x, **k):
    C, lower = c_and_lower
    if lower:
        return solve_triangular(C, solve_triangular(C, b, lower=True), trans=1, lower=True)
    return solve_triangular(C, solve_triangular(C, b, trans=1), lower=False)


def svdvals(a, **k):
    return N.l_svd(a, compute_uv=False)


SCIPY_LINALG = {
    'cho_factor': cho_factor, 'cho_solve': cho_solve, 'solve_triangular': solve_triangular, 'svdvals': svdvals,
    'eigvalsh': N.LINALG['eigvalsh'], 'eigh': N.LINALG['eigh'],
    'block_diag': block_diag, 'expm': expm, 'solve_discrete_are': solve_discrete_are, 'null_space': null_space,
    'inv': N.l_inv, 'solve': N.l_solve, 'det': N.l_det, 'pinv': N.l_pinv, 'norm': N.f_norm,
    'lstsq': N.l_lstsq, 'qr': N.l_qr, 'svd': N.l_svd, 'eig': N.l_eig, 'eigvals': N.l_eigvals,
    'cholesky': lambda a, lower=False, **k: N.l_cholesky(a) if lower else N.l_cholesky(a).T,
}


# ------------------------------------------------------------------ scipy.optimize.nnls

def nnls(A, b, maxiter=None, **k):
    """contract of nonnegative least squares: v minimises ||A v - b|| over v >= 0, r is the minimum.
    Necessary and sufficient: v >= 0, w = A'(A v - b) >= 0, v_i w_i = 0.  Consequence: r^2 = b'(b - A v).
    A zero residual is reported as some number in [0, 1e-12].  The band 1e-12 < r <= 1e-6, where the code's tolerance decides, is outside the claim."""
    E = S.E
    M = N.mat(A)
    c = [Sym.of(x) for x in N.raw(b)]
    if len(M) != len(c):
        raise ValueError('Incompatible dimensions. The first dimension of A is %d, while the shape of b is %s' % (len(M), (len(c),)))
    n = len(M[0]) if M else 0
    kk = ('nnls', tuple(x.key() for row in M for x in row), tuple(x.key() for x in c))
    got = E.memo.get(kk)
    if got is not None:
        return N.asym(got[0]), got[1]
    r = E.fresh('res')
    zero = E.choose(2) == 0
    if zero:
        v = cone_point(E, M, c, n)
    else:
        v = one_row(E, M, c, n, r)
        if v is not None:
            E.memo[kk] = (v, r)
            E.calls.append(('nnls', M, c, v, r, zero))
            return N.asym(v), r
        v = [E.fresh('nn') for _ in range(n)]
        E.add(and_(*[cmp0(x, 'ge') for x in v]))
    res = [L.dotv(M[i], v) - c[i] for i in range(len(M))]
    if zero:
        # what floating point returns for a zero residual
        E.add(and_(cmp0(r, 'ge'), cmp0(r - Sym.of(1e-12), 'le')))
        E.add(and_(*[cmp0(x, 'eq') for x in res]))
    else:
        E.add(cmp0(r - Sym.of(1e-6), 'gt'))
        w = [L.dotv([M[i][j] for i in range(len(M))], res) for j in range(n)]
        if E.opt.get('nnls_kkt', True):
            E.add(and_(*[cmp0(x, 'ge') for x in w]))
            for x, y in zip(v, w):
                E.add(or_(cmp0(x, 'eq'), cmp0(y, 'eq')))
            E.add(cmp0(r * r - (-L.dotv(c, res)), 'eq'))
            E.add(cmp0(-L.dotv(c, res), 'gt'))
        for wit in E.opt.get('nnls_witness', []):
            p = wit(n)
            if p is not None:
                # minimality at a known point: if it is nonnegative and has no residual, the minimum is zero
                rp = [L.dotv(M[i], p) - c[i] for i in range(len(M))]
                E.add(or_(*([cmp0(x, 'lt') for x in p] + [cmp0(x, 'ne') for x in rp])))
    E.memo[kk] = (v, r)
    E.calls.append(('nnls', M, c, v, r, zero))
    return N.asym(v), r


def one_row(E, M, c, n, r):
    """positive residual, all rows but one constant and without right-hand side (K v = 0, g v = gamma): for the support S of the
    solution, v_S = rho z_S with z_S = (K_S'K_S)^-1 g_S and rho = gamma / (1 + g_S z_S); optimal iff z_S >= 0 and
    K_j'K_S z_S >= g_j for the other columns (gamma > 0)."""
    last = [i for i in range(len(M)) if c[i].num or not all(x.is_const for x in M[i])]
    if len(last) != 1 or n > 8:
        return None
    i0 = last[0]
    g, gam = M[i0], c[i0]
    if not gam.is_const or gam.const <= 0:
        return None
    K = [M[i] for i in range(len(M)) if i != i0]
    key = ('one_row', tuple(x.key() for q in K for x in q), n)
    sup = E.memo.get(key)
    if sup is None:
        sup = []
        for k in range(0, min(n, len(K)) + 1):
            for S_ in combinations(range(n), k):
                G = [[L.dotv([q[a] for q in K], [q[b] for q in K]) for b in S_] for a in S_]
                try:
                    sup.append((S_, L.inv(G)))
                except L.LinAlgSingular:
                    pass
        E.memo[key] = sup
    S_, I = sup[E.choose(len(sup))]
    z = [L.dotv(row, [g[a] for a in S_]) for row in I]
    for t in z:
        E.add(cmp0(t, 'gt'))
    for j in range(n):
        if j not in S_:
            E.add(cmp0(L.dotv([L.dotv([q[j] for q in K], [q[a] for q in K]) for a in S_], z) - g[j], 'ge'))
    if not E.feasible():
        raise PathEnd()
    den = L.dotv([g[a] for a in S_], z) + 1
    rho = gam / den
    E.add(cmp0(den - 1, 'ge'))
    E.add(cmp0(r - Sym.of(1e-6), 'gt'))
    v = [ZERO] * n
    for a, t in zip(S_, z):
        v[a] = rho * t
    E.note('contract: scipy.optimize.nnls returns a solution with independent columns (Lawson-Hanson)')
    return v


def cone_point(E, M, c, n):
    """a nonnegative point with M v = c.  The rows of M that are constant and have no right-hand side confine v to a
    constant cone, so v is a nonnegative combination of its extreme rays (Minkowski-Weyl)."""
    from . import stubs
    hom = [r for r, h in zip(M, c) if not h.num and all(x.is_const for x in r) and any(x.num for x in r)]
    if hom and len(hom) < len(M) and n <= 10:
        rays = stubs.rays_of([[stubs.Fraction(r[j].const) for r in hom] for j in range(n)], len(hom))
        al = [E.fresh('al') for _ in rays]
        E.add(and_(*[cmp0(x, 'ge') for x in al]))
        return [L.dotv(al, [Sym.of(y[j]) for y in rays]) for j in range(n)]
    v = [E.fresh('nn') for _ in range(n)]
    E.add(and_(*[cmp0(x, 'ge') for x in v]))
    return v


# ------------------------------------------------------------------ math

def _m(fn):
    return fn


MATH = {
    'sqrt': lambda x: S.E.sym_sqrt(Sym.of(x)) if isinstance(x, Sym) else rmath.sqrt(x),
    'fabs': lambda x: abs(x),
    'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        N.f_isclose(a, b, rel_tol, abs_tol) if isinstance(a, Sym) or isinstance(b, Sym)
        else rmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)),
    'isnan': lambda x: False if isinstance(x, Sym) else rmath.isnan(x),
    'isinf': lambda x: False if isinstance(x, Sym) else rmath.isinf(x),
    'isfinite': lambda x: True if isinstance(x, Sym) else rmath.isfinite(x),
    'fsum': lambda xs: N.sum_(list(xs)),
    'prod': lambda xs, start=1: N.prod_(list(xs)),
    'hypot': lambda *a: L.norm2([Sym.of(x) for x in a]),
    'exp': lambda x: S.E.sym_exp(x) if isinstance(x, Sym) else rmath.exp(x),
}


class Dummy(types.ModuleType):
    """matplotlib and the like: nothing in the claims depends on them."""

    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return DummyObj()


class DummyObj(object):
    def __call__(self, *a, **k):
        return DummyObj()

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return DummyObj()

    def __mul__(self, o):
        return self
    __rmul__ = __add__ = __radd__ = __mul__


def missing(name):
    def f(*a, **k):
        raise Unsupported(name)
    f.__name__ = name.rpartition('.')[2]
    return f
