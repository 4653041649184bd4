"""Intersection, Cartesian product and normalisation."""
from ..runner import Harness
from .geo import member, in_set, poly, data, unchanged, TOL

BOUNDS = 'n <= 3, up to 3 inequalities and 2 equalities per operand; all data and the tested points are free reals; constant rows up to n = 6, 8 rows, 5 operands; integer arrays'
OUTSIDE = 'rows of norm below 1e-6 (normalize leaves them alone below 1e-7); larger dimensions'


def intersection(c):
    n = c.cfg['n']
    D1, D2 = data(c, n, c.cfg['m1'], c.cfg['k1'], '1'), data(c, n, c.cfg['m2'], c.cfg['k2'], '2')
    P1, P2 = poly(c, *D1), poly(c, *D2)
    P3 = P1.intersection(P2)
    z = c.vec('z', n)
    c.check(c.iff(member(c, P3, z), c.and_(in_set(c, *D1, z), in_set(c, *D2, z))), 'a point is in the intersection iff it is in both sets')
    unchanged(c, P1, *D1, 'intersection leaves the first operand unchanged')
    unchanged(c, P2, *D2, 'intersection leaves the second operand unchanged')
    P4 = P2.intersection(P1)
    c.check(c.iff(member(c, P4, z), member(c, P3, z)), 'intersection is commutative as a set')
    # independence: constraining the result does not constrain the operands
    P3.add_inequality(c.mat('F', 1, n), c.vec('g', 1))
    unchanged(c, P1, *D1, 'constraining the intersection leaves the first operand unchanged')
    unchanged(c, P2, *D2, 'constraining the intersection leaves the second operand unchanged')
    r = P4.contains(z.copy())
    both = c.and_(in_set(c, *D1, z), in_set(c, *D2, z))
    c.check(c.cond(r) if c.truth(both) else True, 'contains accepts a common point')


def product(c):
    n1, n2 = c.cfg['n1'], c.cfg['n2']
    D1, D2 = data(c, n1, c.cfg['m1'], c.cfg['k1'], '1'), data(c, n2, c.cfg['m2'], c.cfg['k2'], '2')
    P1, P2 = poly(c, *D1), poly(c, *D2)
    P3 = P1.cartesian_product(P2)
    y, z = c.vec('y', n1), c.vec('z', n2)
    w = c.arr(list(y) + list(z))
    c.check(P3.A.shape[1] == n1 + n2, 'the product lives in the product space')
    c.check(c.iff(member(c, P3, w), c.and_(in_set(c, *D1, y), in_set(c, *D2, z))), '(y, z) is in the product iff y is in the first and z in the second set')
    unchanged(c, P1, *D1, 'the product leaves the first operand unchanged')
    unchanged(c, P2, *D2, 'the product leaves the second operand unchanged')


def normalize(c):
    n, m, k = c.cfg['n'], c.cfg['m'], c.cfg['k']
    A, b, C, d = data(c, n, m, k)
    for M in (A, C):
        if M is None:
            continue
        for i in range(M.shape[0]):
            if c.cfg.get('zero') and i == 0 and M is A:
                c.assume(c.eq(M[i], M[i] * 0))
            else:
                c.assume(c.or_(*[c.or_(c.ge(v, 0.01), c.le(v, -0.01)) for v in M[i]]))
    A0, b0 = A.copy(), b.copy()
    P = c.geom.Polyhedron(A0, b0, None if C is None else C.copy(), None if d is None else d.copy())
    Q = c.geom.Polyhedron(A0, b.copy())          # another polyhedron built from the same A
    P.normalize()
    z = c.vec('z', n)
    # row by row: positive multiple of the original row, unit norm
    for M, h, M0, h0, name in ((P.A, P.b, A, b, 'inequality'), (P.C, P.d, C, d, 'equality')):
        if M0 is None:
            continue
        c.check(M.shape == M0.shape, 'normalize keeps the rows')
        for i in range(M0.shape[0]):
            nn = M0[i].dot(M0[i])
            if c.cfg.get('zero') and i == 0 and name == 'inequality':
                c.check(c.and_(c.eq(M[i], M0[i]), c.eq(h[i], h0[i])), 'normalize leaves zero rows alone')
                continue
            c.check(c.eq(M[i].dot(M[i]), 1), 'normalized rows have unit norm')
            # M = M0 / r, h = h0 / r with r = M0.M > 0
            r = M0[i].dot(M[i])
            c.check(c.and_(c.gt(r, 0), c.eq(M[i] * r, M0[i]), c.eq(h[i] * r, h0[i])), 'normalize scales each row and its right-hand side by the same positive factor')
    c.check(c.and_(c.eq(Q.A, A), c.eq(Q.b, b)), 'normalizing a polyhedron leaves others built from the same arrays unchanged')
    del z


def ints(c):
    """integer data is normalized, not truncated."""
    A, b, C, d = [[3, 4], [0, -2], [-5, 12], [0, 0]], [7, 3, 1, 2], [[4, -3]], [1]
    AA, bb, CC, dd = c.ints(A), c.ints(b), c.ints(C), c.ints(d)
    P = c.geom.Polyhedron(AA, bb, CC, dd)
    R = P.intersection(c.geom.Polyhedron(AA, bb))
    X = P.cartesian_product(P)
    z, y = c.vec('z', 2), c.vec('y', 2)
    spec = lambda v: c.and_(c.le(c.arr(A).dot(v), c.arr(b)), c.eq(c.arr(C).dot(v), c.arr(d)))
    for Q in (P, R):
        Q.normalize()
        c.check(c.iff(member(c, Q, z), spec(z)), 'normalize does not change the set')
        c.check(c.and_(*[c.eq(r.dot(r), 1) for r in Q.A if bool(abs(float(r[0])) + abs(float(r[1])) > 0)]), 'normalized rows have unit norm')
    X.normalize()
    c.check(c.iff(member(c, X, c.arr(list(y) + list(z))), c.and_(spec(y), spec(z))), 'the normalized product is the product')
    c.check(c.and_(c.eq(AA, c.arr(A)), c.eq(bb, c.arr(b)), c.eq(CC, c.arr(C)), c.eq(dd, c.arr(d))), 'the given arrays are left alone')


def irregular(a, b, k):
    return [[(5 * i + 7 * j + 3 * k + i * j * (k + 1)) % 9 - 4 for j in range(b)] for i in range(a)]


def chain(c):
    """several operations on the same operands, in larger dimensions; operands and results changed afterwards."""
    n, m, k, N = c.cfg['n'], c.cfg['m'], c.cfg['k'], c.cfg['N']
    D = [(c.arr(irregular(m, n, i)), c.vec('b%d' % i, m), c.arr(irregular(k, n, i + 5)) if k and i % 2 == 0 else None, c.vec('d%d' % i, k) if k and i % 2 == 0 else None) for i in range(N)]
    P = [poly(c, *t) for t in D]
    z, y = c.vec('z', n), c.vec('y', n)
    ins = [in_set(c, *t, z) for t in D]
    iny = [in_set(c, *t, y) for t in D]
    both = c.arr(list(y) + list(z))
    R = P[0]
    for i in range(1, N):
        R = R.intersection(P[i])
        c.check(c.iff(member(c, R, z), c.and_(*ins[:i + 1])), 'a point is in the intersection of several sets iff it is in all')
    X = P[0].cartesian_product(P[-1])
    W = P[0].cartesian_product(P[0])
    S = P[0].intersection(P[0])
    c.check(c.iff(member(c, S, z), ins[0]), 'a set intersected with itself')
    c.check(c.iff(member(c, X, both), c.and_(iny[0], ins[-1])), '(y, z) is in the product iff y is in the first and z in the second set')
    c.check(c.iff(member(c, W, both), c.and_(iny[0], ins[0])), 'a set times itself')
    # operands change: the results stay
    P[0].add_inequality(c.arr([[1] * n]), c.arr([0]))
    P[0].normalize()
    if P[-1].C.shape[0]:
        P[-1].d[:] = P[-1].d + 1
    P[-1].b[:] = P[-1].b - 1
    P[-1].A[0] = P[-1].A[0] * 2
    c.check(c.iff(member(c, R, z), c.and_(*ins)), 'changing an operand afterwards leaves the intersection alone')
    c.check(c.iff(member(c, X, both), c.and_(iny[0], ins[-1])), 'changing an operand afterwards leaves the product alone')
    # results change: the operands stay
    T = P[1].intersection(P[-1])
    U = P[1].cartesian_product(P[-1])
    keep = [(Q.A.copy(), Q.b.copy(), Q.C.copy(), Q.d.copy()) for Q in P]
    for Q in (T, U, R, X, S):
        Q.A[:] = Q.A * 3
        Q.b[:] = Q.b + 1
        Q.C[:] = Q.C * 2
        Q.d[:] = Q.d - 1
    for Q, t in zip(P, keep):
        c.check(c.and_(*[c.eq(a, b) for a, b in zip((Q.A, Q.b, Q.C, Q.d), t)]), 'changing a result leaves the operands alone')


HARNESSES = [
    Harness('intersection', intersection, [dict(n=n, m1=a, k1=b, m2=d, k2=e) for n, a, b, d, e in
                                           ((1, 1, 0, 1, 0), (2, 2, 0, 1, 0), (2, 1, 1, 2, 0), (2, 2, 0, 1, 1), (3, 2, 1, 3, 1), (2, 1, 2, 1, 1))], witnesses=3),
    Harness('product', product, [dict(n1=n, m1=a, k1=b, n2=p, m2=d, k2=e) for n, a, b, p, d, e in
                                 ((1, 1, 0, 1, 2, 0), (2, 2, 0, 1, 1, 0), (1, 2, 1, 2, 1, 0), (2, 1, 0, 2, 2, 1), (2, 2, 1, 1, 1, 1), (1, 1, 0, 3, 3, 2))], witnesses=3),
    Harness('normalize', normalize, [dict(n=n, m=m, k=k) for n, m, k in ((1, 2, 0), (2, 2, 0), (2, 1, 1), (3, 2, 1), (1, 1, 1), (3, 3, 2))] +
            [dict(n=2, m=2, k=0, zero=True), dict(n=2, m=2, k=1, zero=True)], quick=8, witnesses=3, tol=1e-6),
    Harness('ints', ints, [{}], witnesses=1),
    Harness('chain', chain, [dict(n=2, m=2, k=1, N=3), dict(n=3, m=4, k=0, N=2), dict(n=4, m=5, k=2, N=2), dict(n=2, m=3, k=1, N=5), dict(n=6, m=8, k=1, N=3)], witnesses=2),
]
