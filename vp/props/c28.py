"""Geometry utilities."""
from fractions import Fraction
from itertools import permutations
from ..runner import Harness

F = Fraction

BOUNDS = 'nullspace_basis: free 1x2, 1x3, 2x2, 2x1 matrices and 2x3, 3x3, 3x2, 4x2 matrices with free entries as listed; linearly_independent_rows: up to 3 rows and 3 columns; plane_through_points: 1, 2 and 3 free or partly free points, every random offset; same_rows / same_vectors: up to 3 rows, free entries, free positive scale factors'
OUTSIDE = 'larger matrices; comparisons of rows that differ by less than 1e-2 but are not equal (the tolerance decides); rows whose distance to the span of the others is in (0, 1e-5]; random offsets that make the point matrix singular (probability zero)'

NS = {
    '1x2': [['a', 'b']], '1x3': [['a', 'b', 'c']], '2x2': [['a', 'b'], ['c', 'd']], '2x1': [['a'], ['b']], '1x1': [['a']],
    '2x3': [[3, 4, 0], [0, 'a', 'b']], '2x3b': [['a', 0, 'b'], ['a', 0, 'b']], '3x3': [[1, 2, 2], [2, 'a', 4], [0, 0, 'b']],
    '4x4': [[3, 4, 0, 0], [0, 0, 5, 12], [3, 4, 5, 12], ['a', 'a', 'a', 'a']], '3x5': [[1, 0, 0, 0, 0], [0, 3, 4, 0, 0], [0, 0, 0, 5, 12]], '5x4': [[1, 0, 0, 0], [2, 0, 0, 0], [0, 3, 4, 0], [1, 3, 4, 0], [0, 0, 0, 0]], '1x5': [[1, 2, 2, 4, 0]], '6x1': [[0]] * 6,
    # small entries
    'tiny': [[F(3, 10 ** 5), F(4, 10 ** 5)], [F(6, 10 ** 5), F(8, 10 ** 5)]], 'tiny3': [[F(1, 10 ** 5), F(2, 10 ** 5), F(2, 10 ** 5)]], 'small': [[F(3, 10000), F(4, 10000), 0], [0, 0, F(1, 5000)]], 'small2': [[F(1, 2500), 0], [F(1, 1250), 0]], 'mixed': [[F(2000, 10 ** 6), F(999999, 10 ** 6)]], 'mixed3': [[1, 0, 0], [0, F(3, 5000), F(4, 5000)]], 'mixed4': [[5, 0], [0, F(1, 4000)]],
    '0x2': [], '3x2': [[1, 0], ['a', 'b'], [0, 0]], '4x2': [['a', 'b'], ['b', 'a'], [1, 1], [0, 0]], '2x4': [[1, 0, 0, 0], [0, 3, 'a', 4]],
}


def build(c, rows, n=None):
    memo = {}

    def v(t):
        if isinstance(t, str):
            if t not in memo:
                memo[t] = c.real(t)
            return memo[t]
        return c.const(t)
    if not rows:
        return c.np.zeros((0, n))
    return c.arr([[v(t) for t in r] for r in rows], (len(rows), len(rows[0])))


def nullspace(c):
    A = build(c, NS[c.cfg['m']], 2) if not c.cfg.get('int') else c.ints(NS[c.cfg['m']])
    m, n = A.shape
    for t in () if c.cfg['m'].startswith(('small', 'mixed', 'tiny')) else c.np.ravel(A):
        c.assume(c.or_(c.eq(t, 0), c.ge(t, 0.1), c.le(t, -0.1)))
    A0 = A.copy()
    Z = c.gutils.nullspace_basis(A)
    c.check(c.eq(A, A0), 'the argument is left alone')
    k = Z.shape[1]
    c.check(Z.shape[0] == n, 'vectors of the right dimension')
    if k:
        c.check(c.eq(Z.T.dot(Z), c.np.eye(k)), 'the columns are orthonormal')
        if m:
            big = 10 ** 5 if c.cfg['m'].startswith('tiny') else 1
            c.check(c.eq((A * big).dot(Z), c.np.zeros((m, k))), 'the columns are in the nullspace')
    v = c.vec('v', n)
    if m:
        c.assume(c.eq(A.dot(v), c.np.zeros(m)) if c.symbolic else True)
    if not c.symbolic:
        # project the point of the model on the nullspace
        import numpy as np
        U, s, Vt = np.linalg.svd(A) if m else (None, np.zeros(0), np.eye(n))
        N = Vt[int((s > 1e-9).sum()):].T
        v = N.dot(N.T.dot(v))
    c.check(c.eq(Z.dot(Z.T.dot(v)), v) if k else c.eq(v, v * 0), 'every vector of the nullspace is a combination of the columns')


IR = {
    '1x1': [['a']], '1x2': [['a', 'b']], '2x2': [['a', 'b'], ['c', 'd']], '2x3': [[3, 4, 0], ['a', 'b', 'c']], '3x3': [[1, 2, 2], [2, 4, 4], ['a', 0, 'c']],
    '4x4': [[1, 0, 0, 0], [0, 3, 4, 0], ['a', 6, 8, 0], [0, 0, 0, 'b']], '5x5': [[1, 0, 0, 0, 0], [0, 2, 0, 0, 0], [1, 2, 'a', 0, 0], [0, 0, 0, 3, 4], [0, 0, 0, 'b', 8]], '5x2': [[3, 4], [6, 8], [0, 0], [-3, -4], ['a', 1]], '2x5': [[1, 2, 3, 4, 5], [2, 4, 6, 8, 'a']],
    '6x6': [[(2 if i == j else 1 if j == i + 1 else 0) for j in range(6)] for i in range(6)], '3x3b': [['a', 0, 0], ['b', 2, 0], ['c', 'd', 1]], '3x3d': [[1, 0, 0], ['b', 'c', 0], [2, -1, 'f']], '3x2': [[3, 4], ['a', 'b'], ['c', 'd']], '2x1': [['a'], ['b']], '3x3c': [[0, 3, 4], ['a', 6, 8], [1, 'b', 0]],
}


def gram(c, rows):
    """Gram determinant."""
    k = len(rows)
    if k == 0:
        return c.const(1)
    G = [[a.dot(b) for b in rows] for a in rows]
    return det(G)


def det(G):
    if len(G) == 1:
        return G[0][0]
    r = 0
    for j in range(len(G)):
        r = r + (-1) ** j * G[0][j] * det([row[:j] + row[j + 1:] for row in G[1:]])
    return r


def independent(c):
    A = build(c, IR[c.cfg['m']]) if not c.cfg.get('int') else c.ints(IR[c.cfg['m']])
    m, n = A.shape
    for t in c.np.ravel(A):
        c.assume(c.le(t, 8) if c.symbolic else True)
        c.assume(c.ge(t, -8) if c.symbolic else True)
    A0 = A.copy()
    r = c.gutils.linearly_independent_rows(A)
    c.check(c.eq(A, A0), 'the argument is left alone')
    sel = [int(i) for i in r]
    c.check(sel == sorted(set(sel)) and all(0 <= i < m for i in sel), 'a sorted list of rows')
    c.check(c.gt(gram(c, [A[i] for i in sel]), 0) if c.symbolic else gram(c, [A[i] for i in sel]) > 0, 'the selected rows are linearly independent')
    if sel != list(range(m)):
        g = [gram(c, [A[i] for i in range(k)]) for k in range(m + 1)]
        bad = c.or_(*[c.le(g[k + 1], Fraction(1, 10 ** 10) * g[k] if c.symbolic else 1e-10 * g[k]) for k in range(m)])
        c.check(bad, 'independent rows are all selected')


PT = {
    '1': [['a']], '2': [['a', 'b'], ['c', 'd']], '3': [['a', 'b', 'c'], [1, 0, 0], [0, 2, 'e']], '3o': [[1, 0, 0], ['a', 'b', 0], [-1, 0, 'c']],
    '3f': [['a', 'b', 'c'], [1, 1, 0], [0, 2, -1]],
}


def plane(c):
    P = build(c, PT[c.cfg['p']])
    n = P.shape[1]
    if c.cfg.get('draw'):
        c.opts(rand=True)
    D = [[P[i][j] - P[0][j] for j in range(n)] for i in range(1, n)]
    # affinely independent: the differences span a hyperplane
    if n == 2:
        c.assume(c.ge(D[0][0] * D[0][0] + D[0][1] * D[0][1], 0.01))
    if n == 3:
        cr = [D[0][1] * D[1][2] - D[0][2] * D[1][1], D[0][2] * D[1][0] - D[0][0] * D[1][2], D[0][0] * D[1][1] - D[0][1] * D[1][0]]
        c.assume(c.ge(sum(t * t for t in cr), 0.01))
    pts = [P[i].copy() for i in range(n)]
    res = c.call(c.gutils.plane_through_points, pts)
    if not res.ok:
        if type(res.exc).__name__ == 'LinAlgError' and c.symbolic:
            c.skip()      # the draw makes the matrix singular
        raise res.exc
    a, d = res.value
    c.check(c.and_(*[c.eq(p, P[i]) for i, p in enumerate(pts)]), 'the argument is left alone')
    for i in range(n):
        c.check(c.eq(a.dot(P[i]), d), 'the hyperplane passes through every point')
    c.check(c.eq(a.dot(a), 1), 'the normal has unit norm')
    c.check(c.ge(d, 0), 'the offset is not negative')


POOL = [[3, 4], [4, -3], [-3, -4], [5, 12]]


def rows(c):
    """rows up to a positive scale."""
    ia, ib = c.cfg['rows']
    ma, mb = len(ia), len(ib)
    sa, sb = c.vec('s', ma), c.vec('t', mb)
    c.assume(c.and_(c.ge(sa, 0.1), c.ge(sb, 0.1)))
    A = c.arr([[sa[k] * v for v in POOL[i]] for k, i in enumerate(ia)], (ma, 2))
    B = c.arr([[sb[k] * v for v in POOL[i]] for k, i in enumerate(ib)], (mb, 2))
    A0, B0 = A.copy(), B.copy()
    r = c.gutils.same_rows(A, B)
    c.check(c.and_(c.eq(A, A0), c.eq(B, B0)), 'the arguments are left alone')
    c.check(c.truth(c.cond(r)) == (sorted(ia) == sorted(ib)), 'equal up to order and positive scale')


def vectors(c):
    """free entries, no scaling."""
    ma, mb, n, via = c.cfg['ma'], c.cfg['mb'], c.cfg['n'], c.cfg['via']
    A, B = c.mat('A', ma, n), c.mat('B', mb, n)
    if c.cfg.get('zero'):
        A[0] = 0
    al = [A[i] for i in range(ma)] + [B[i] for i in range(mb)]
    for i in range(len(al)):
        for j in range(i):
            c.assume(c.or_(c.eq(al[i], al[j]), *[c.or_(c.ge(al[i][k] - al[j][k], 0.01), c.le(al[i][k] - al[j][k], -0.01)) for k in range(n)]))
        c.assume(c.and_(c.le(al[i], 8), c.ge(al[i], -8)))
    A0, B0 = A.copy(), B.copy()
    if via == 'rows':
        r = c.gutils.same_rows(A, B, False)
    elif via == 'kw':
        r = c.gutils.same_rows(A, B, normalize=False)
    else:
        r = c.gutils.same_vectors([A[i] for i in range(ma)], [B[i] for i in range(mb)])
    c.check(c.and_(c.eq(A, A0), c.eq(B, B0)), 'the arguments are left alone')
    same = c.or_(*[c.and_(*[c.eq(A[i], B[p[i]]) for i in range(ma)]) for p in permutations(range(mb))]) if ma == mb else False
    if c.truth(c.cond(r)):
        c.check(same, 'equal collections only')
    else:
        c.check(c.not_(same), 'all equal collections')


def refuse(c):
    v = [c.vec('v', 2), c.mat('w', 1, 2)]
    u = [c.vec('u', 2), c.vec('t', 2)]
    c.check(c.call(c.gutils.same_vectors, v, u).raised(ValueError), 'arrays that are not vectors are refused with a ValueError')
    c.check(c.call(c.gutils.same_vectors, u, v).raised(ValueError), 'arrays that are not vectors are refused with a ValueError')


RW = [([0], [0]), ([0], [2]), ([0, 1], [0, 1]), ([0, 1], [1, 0]), ([0, 2], [2, 0]), ([0, 2], [0, 0]), ([0, 0], [0, 1]), ([0, 1], [0, 0]), ([1, 3], [3, 2]), ([0, 1], [0]), ([0], [0, 0]),
      ([0, 1, 0], [0, 0, 1]), ([0, 0, 1], [0, 1, 1]), ([0, 1, 1], [0, 0, 1]), ([0, 2, 3], [3, 0, 2]), ([0, 2, 3], [0, 2, 1]), ([1, 2, 3, 0], [0, 3, 2, 1]), ([1, 1, 3, 3], [3, 1, 1, 3]), ([1, 1, 3, 3], [3, 1, 1, 1]),
      ([0, 1, 2, 3, 0, 1], [1, 0, 3, 2, 1, 0]), ([0, 1, 2, 3, 0, 1], [1, 0, 3, 2, 1, 1]), ([0, 1, 2, 3, 3], [3, 3, 2, 1]), ([3, 3, 3, 3, 3, 3], [3, 3, 3, 3, 3, 3])]
W = [Fraction(1, 8), Fraction(1, 100)]
HARNESSES = [
    Harness('nullspace', nullspace, [dict(m=k) for k in NS] + [dict(m=k, int=True) for k in ('3x5', '5x4', '1x5')], witnesses=4, witness_margins=W),
    Harness('independent', independent, [dict(m='6x6', int=True)] + [dict(m=k) for k in sorted(IR, key=lambda k: k == '3x3b')], quick=-1, witnesses=4, witness_margins=W),
    Harness('plane', plane, [dict(p=k) for k in ('1', '2')] + [dict(p=k, draw=1) for k in ('1', '2', '3', '3o', '3f')], witnesses=4, witness_margins=W),
    Harness('rows', rows, [dict(rows=r) for r in RW], witnesses=4, witness_margins=W),
    Harness('vectors', vectors, [dict(ma=a, mb=b, n=n, via=v) for v, a, b, n in
                                 (('rows', 1, 1, 2), ('rows', 2, 2, 2), ('kw', 2, 2, 1), ('vec', 2, 2, 2), ('vec', 1, 2, 2), ('rows', 2, 1, 1), ('vec', 3, 3, 1), ('rows', 3, 3, 1))], witnesses=4, witness_margins=W),
    Harness('refuse', refuse, [dict()], witnesses=1),
]
