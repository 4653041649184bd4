"""Maximal constraint-admissible invariant set."""
from ..runner import Harness
from .geo import member, in_set, poly
from . import fam, ocp

BOUNDS = 'state dimension <= 2 (3 in the thorough tier), up to 5 constraint rows; constant rational stable dynamics and gains, right-hand sides free reals in [1/2, 2] (origin in the interior), states free; constant sets that take up to 28 iterations; float and integer arrays; maximality against the first T = 6 to 34 steps of a trajectory; unstable triangular dynamics with free reals'
OUTSIDE = 'other dynamics; constraint sets with equalities (documented as inequality-only); origin on the boundary; eigenvalues within 0.01 of modulus one'
ASSUMPTIONS = ['the LP solver meets its contract (C17)', 'numpy.linalg.eig of a constant matrix is executed']
TOL = 1e-6

DYN = {
    '1a': (1, [['1/2']], 8), '1b': (1, [['-9/10']], 8), '1c': (1, [[0]], 6),
    'tri': (2, [['1/2', 1], [0, '1/2']], 10), 'rot': (2, [['12/25', '-16/25'], ['16/25', '12/25']], 12), 'diag': (2, [['9/10', 0], [0, '-1/4']], 6),
    'shear': (2, [['4/5', '3/2'], [0, '-3/5']], 14), 'nil': (2, [[0, 3], [0, 0]], 6), 'neg': (2, [['-1/2', '3/4'], [0, '1/3']], 10),
    'spin': (2, [[0, '-9/10'], ['9/10', 0]], 10),
    'slow': (2, [[1, '1/8'], ['-1/8', '7/8']], 16), 'slower': (2, [[1, '1/16'], ['-1/16', '15/16']], 34), 'drift': (2, [['19/20', '1/2'], [0, '9/10']], 20),
    'rot3': (3, [[0, 1, 0], [0, 0, 1], ['1/2', 0, 0]], 8),
    '3n': (3, [['1/2', 1, 0], [0, '1/2', 0], [0, '1/4', '-1/3']], 10),
}


def powers(c, A, T):
    P = [c.np.eye(A.shape[0])]
    for _ in range(T):
        P.append(A.dot(P[-1]))
    return P


def verify(c, O, A, F, b, T):
    n = A.shape[0]
    z = c.vec('z', n)
    inO = member(c, O, z)
    if O.C.shape[0]:
        c.fail('no equality appears')
    for i in range(F.shape[0]):
        c.check(c.implies(inO, c.le(F[i].dot(z), b[i] + TOL)), 'the set is contained in the constraint set')
    y = A.dot(z)
    for i in range(O.A.shape[0]):
        c.check(c.implies(inO, c.le(O.A[i].dot(y), O.b[i] + TOL)), 'the set is mapped into itself')
    stay = c.and_(*[c.le(F.dot(Pt.dot(z)), b) for Pt in powers(c, A, T)])
    for i in range(O.A.shape[0]):
        c.check(c.implies(stay, c.le(O.A[i].dot(z), O.b[i] + TOL)), 'a state whose trajectory stays in the constraint set belongs to the set')


def rhs(c, m, free, tag='b'):
    b = []
    for i in range(m):
        if free is None or i in free:
            t = c.real('%s[%d]' % (tag, i))
            c.box(t, 0.5, 2)
            b.append(t)
        else:
            b.append(c.const(1))
    return c.arr(b)


def invariant(c):
    n, A, T = DYN[c.cfg['dyn']]
    A = ocp.const(c, A)
    F = c.arr(fam.A[n][c.cfg['a']])
    b = rhs(c, F.shape[0], c.cfg.get('free')) if 'b' not in c.cfg else ocp.const(c, c.cfg['b'])
    if c.cfg.get('int'):
        F, b = c.ints(fam.A[n][c.cfg['a']]), c.ints(c.cfg['b'])
    X = poly(c, F, b)
    if c.cfg.get('before'):
        # questions asked of the set, and other dynamics, before
        X.bounded, X.radius
        c.dts.mcais(A * c.const(0.5), X)
        X.vertices
    O = c.dts.mcais(A.copy(), X)
    verify(c, O, A, F, b, T)
    if c.cfg.get('before'):
        c.dts.mcais(A * c.const(-0.5), X)
        O2 = c.dts.mcais(A.copy(), X)
        verify(c, O2, A, F, b, T)
        verify(c, O, A, F, b, T)
    c.check(c.and_(c.eq(X.A, F), c.eq(X.b, b)), 'the constraint set is left alone')


SYS = {   # A, B, K, D
    's1': ([[2]], [[1]], [['-3/2']], [[1, 0], [-1, 0], [0, 1], [0, -1]], 8),
    's2': ([[1, 1], [0, 1]], [[0], [1]], [['-1/4', -1]], [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], 12),
    's3': ([[1]], [[1, 1]], [['-1/2'], ['-3/4']], [[1, 0, 0], [-1, 1, 0], [0, -1, 1], [0, 0, -1]], 8),
    's4': ([[0, 2], [1, 0]], [[1], [0]], [['1/2', -2]], [[1, 1, 0], [-1, 0, 1], [0, -1, 0], [0, 0, -1]], 10),
}


def closed_loop(c):
    A, B, K, D, T = SYS[c.cfg['sys']]
    A, B, K, D = (ocp.const(c, t) for t in (A, B, K, D))
    b = rhs(c, D.shape[0], c.cfg.get('free'))
    S = c.dts.LinearSystem(A.copy(), B.copy())
    P = poly(c, D, b)
    O = S.mcais(K.copy(), P)
    nx = A.shape[0]
    F = D[:, :nx] + D[:, nx:].dot(K)
    verify(c, O, A + B.dot(K), F, b, T)
    z = c.vec('z', nx)
    c.check(c.implies(member(c, O, z), c.le(D.dot(ocp.join(c, z, K.dot(z))), b + TOL)), 'the feedback respects the constraints on (x, u)')
    c.check(c.and_(c.eq(P.A, D), c.eq(P.b, b)), 'the constraint set is left alone')


UNSTABLE = {
    'spiral': [['4/5', '-4/5'], ['4/5', '4/5']], 'double': [[2]], 'flip': [['-3/2']], 'creep': [['26/25']], 'corner': [['1/2', 1], [0, '-5/4']], 'cycle': [[0, 1], ['-5/4', 0]],
    'double3': [[0, 1, 0], [0, 0, 1], ['3/2', 0, 0]],
}


def refused(c):
    c.limit_calls(150)
    what = c.cfg['what']
    n, A, T = DYN[c.cfg['dyn']]
    A = ocp.const(c, A)
    F = c.arr(fam.A[n][c.cfg['a']])
    if what == 'unstable':
        t = [[c.real('a%d%d' % (i, j)) if j >= i else c.const(0) for j in range(n)] for i in range(n)]
        k = c.cfg['k']
        for i in range(n):
            if i == k:
                c.assume(c.or_(c.and_(c.ge(t[i][i], 1.01), c.le(t[i][i], 3)), c.and_(c.le(t[i][i], -1.01), c.ge(t[i][i], -3))))
            else:
                c.box(t[i][i], -3, 3)
        A = c.arr(t)
        b = rhs(c, F.shape[0], None)
    elif what in UNSTABLE:
        A = ocp.const(c, UNSTABLE[what])
        b = rhs(c, F.shape[0], c.cfg.get('free'))
    elif what == 'origin':
        b = c.vec('b', F.shape[0])
        c.assume(c.or_(*[c.le(v, -0.01) for v in b]))
    else:
        b = rhs(c, F.shape[0], None)
    r = c.call(c.dts.mcais, A, poly(c, F, b))
    c.check(r.raised(ValueError), {'unstable': 'unstable dynamics are refused', 'origin': 'a constraint set without the origin is refused', 'unbounded': 'an unbounded constraint set is refused'}.get(what, 'unstable dynamics are refused'))


_i = [dict(dyn='1a', a='seg'), dict(dyn='1b', a='seg3'), dict(dyn='1c', a='seg'), dict(dyn='tri', a='box', free=(0, 2)), dict(dyn='rot', a='box', free=(0,)), dict(dyn='diag', a='tri'),
      dict(dyn='neg', a='tri', free=(0, 1)), dict(dyn='nil', a='box', free=(0, 3)), dict(dyn='shear', a='quad', free=(1,)), dict(dyn='spin', a='box', free=(0, 1)),
      dict(dyn='tri', a='quad', free=(0, 3)), dict(dyn='shear', a='box', free=(0, 1, 2)), dict(dyn='tri', a='box'), dict(dyn='3n', a='tet', free=(3,)), dict(dyn='3n', a='box', free=(0,)), dict(dyn='rot', a='tri')]
_i = [dict(dyn='slow', a='box', b=[4, 4, 1, 1]), dict(dyn='slower', a='box', b=[4, 4, 1, 1]), dict(dyn='drift', a='box', b=[1, 1, 1, 1]), dict(dyn='rot3', a='box', b=[1, 2, 3, 4, 5, 6]),
      dict(dyn='neg', a='tri', b=[2, 1, 1], int=True), dict(dyn='spin', a='box', b=[1, 2, 3, 4], int=True), dict(dyn='tri', a='box', free=(0,), before=True), dict(dyn='1b', a='seg3', before=True)] + _i
_s = [dict(sys='s1'), dict(sys='s2', free=(0, 4)), dict(sys='s3', free=(0, 2)), dict(sys='s4', free=(0, 1)), dict(sys='s3'), dict(sys='s2', free=(1, 2, 5))]
_r = [dict(what='unstable', dyn='1a', a='seg', k=0), dict(what='unstable', dyn='tri', a='box', k=0), dict(what='unstable', dyn='tri', a='box', k=1), dict(what='spiral', dyn='tri', a='box'), dict(what='spiral', dyn='tri', a='tri', free=()), dict(what='double', dyn='1a', a='seg', free=()), dict(what='flip', dyn='1a', a='seg', free=()), dict(what='creep', dyn='1a', a='seg3', free=()), dict(what='corner', dyn='tri', a='box', free=()), dict(what='cycle', dyn='tri', a='quad', free=()), dict(what='double3', dyn='rot3', a='tet', free=()),
      dict(what='origin', dyn='1a', a='seg'), dict(what='origin', dyn='tri', a='tri'), dict(what='origin', dyn='rot', a='box'), dict(what='unbounded', dyn='1a', a='ray'),
      dict(what='unbounded', dyn='tri', a='cone'), dict(what='unbounded', dyn='rot', a='strip'), dict(what='unbounded', dyn='rot', a='half')]
HARNESSES = [
    Harness('invariant', invariant, _i, quick=len(_i) - 1, witnesses=4, witness_margins=[0.0625, 0.01]),
    Harness('closed_loop', closed_loop, _s, witnesses=4, witness_margins=[0.0625, 0.01]),
    Harness('refused', refused, _r, witnesses=2, witness_margins=[0.0625, 0.01]),
]
