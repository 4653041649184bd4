"""Orthogonal projection and convex hull."""
from ..runner import Harness
from .geo import member, poly, TOL
from . import fam
from .c15 import candidates
from fractions import Fraction

BOUNDS = 'projection onto one coordinate: n <= 3, up to 6 inequalities with free real right-hand sides; onto 2 or 3 coordinates: the listed polytopes of dimension 2 to 4 (up to 9 facets), freely translated along the dropped coordinates; convex hull: the listed point sets in dimension 2 and 3 with a free translation; the point tested is a free real vector'
OUTSIDE = 'other polytopes and point sets; facets and vertices closer than 1e-5; polytopes that are flat; whether a point is reported as a vertex where rounding decides that it is extreme'
ASSUMPTIONS = ['scipy.spatial.ConvexHull returns the facets of the points it is given, with unit outer normals', 'the LP and QP solvers meet their contracts (C17, C18)',
               'the random offset used to fit a plane is one fixed draw (every draw: C28)', 'irrational facet normals are rationals within 1e-13, as in floating point']
RELAX = 1e-5


def compare(c, P, A, b, res, y):
    drop = [i for i in range(A.shape[1]) if i not in res]
    Ay = A[:, res]
    rhs = b - Ay.dot(y)
    got = member(c, P, y)
    c.check(P.A.shape[1] == len(res) and P.C.shape[0] == 0, 'the projection lives in the selected coordinates')
    if not drop:
        c.check(c.implies(got, c.le(Ay.dot(y), b + RELAX)), 'points of the projection can be completed')
        c.check(c.implies(c.le(Ay.dot(y), b - RELAX), got), 'points that can be completed are in the projection')
        return
    Az = A[:, drop]
    c.check(c.implies(got, c.feasible(Az, rhs + RELAX)), 'points of the projection can be completed')
    c.check(c.implies(c.feasible(Az, rhs - RELAX), got), 'points that can be completed are in the projection')


def comb(c, v, W, slack):
    """v is a combination of the points W with weights above -slack."""
    k = len(W)
    M = c.np.vstack((c.np.vstack(W).T, c.np.ones((1, k))))
    return c.feasible(-c.np.eye(k), c.np.zeros(k) + slack, M, c.np.concatenate((v, c.np.ones(1))))


def corners(c, P, A, b, res, tag=''):
    """the vertices reported along with the projection."""
    V = [v for v in P.vertices]
    drop = [i for i in range(A.shape[1]) if i not in res]
    c.check(all(tuple(v.shape) == (len(res),) for v in V), 'vertices of the projection are points of its space' + tag)
    for i, v in enumerate(V):
        rhs = b - A[:, res].dot(v)
        c.check(c.feasible(A[:, drop], rhs + RELAX) if drop else c.ge(rhs, -RELAX), 'the vertices reported for the projection belong to it' + tag)
        if len(V) > 1:
            c.check(c.not_(comb(c, v, V[:i] + V[i + 1:], 1e-3)), 'the vertices reported for the projection are extreme points of it' + tag)
    for w in candidates(c, [[Fraction(str(x)) for x in r] for r in c.cfg_A], [], b, []):
        if c.truth(c.le(A.dot(w), b + 1e-7)):
            c.check(comb(c, w[res], V, 1e-6 if c.symbolic else 1e-4), 'the vertices reported for the projection span it' + tag)


def line(c):
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    P = poly(c, A, b, C, d)
    ray = fam.recession(fam.A[cfg['n']][cfg['a']])
    feas = c.feasible(A, b, C, d)
    r = c.call(P.project_to, list(cfg['res']))
    if not r.ok:
        c.check(r.raised(ValueError), 'projections that are refused raise a ValueError')
        c.check(c.or_(ray, C is not None, c.not_(feas)), 'bounded, non-empty, full-dimensional sets are projected')
        return
    c.check(c.and_(not ray, C is None, feas), 'empty, unbounded and equality-constrained sets are refused')
    y = c.vec('y', len(cfg['res']))
    compare(c, r.value, A, b, cfg['res'], y)
    V = [v for v in r.value.vertices]
    c.check(all(tuple(v.shape) == (1,) for v in V), 'vertices of the projection are points of its space')
    for v in V:
        c.check(member(c, r.value, v, TOL), 'the vertices reported for the projection belong to it')
    for s in (1, -1):
        c.check(c.implies(member(c, r.value, y), c.or_(*[c.le(y * s, v * s + TOL) for v in V])), 'the vertices reported for the projection span it')
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'projecting does not change the polyhedron')


BOX3 = [[(1 - 2 * s if i == j else 0) for j in range(3)] for s in range(2) for i in range(3)]
# polytopes (A, b): b is moved by a free translation
SHAPES = {
    'tri': ([[3, 4], [-1, 1], [1, -5]], [12, 3, 4]),
    'quad2': ([[2, 1], [-1, 3], [-2, -1], [1, -4]], [4, 5, 3, 6]),
    'pent2': ([[2, 1], [-1, 3], [-2, -1], [1, -4], [1, 1]], [4, 5, 3, 6, 2]),
    'tet': ([[-1, 0, '1/2'], [0, -1, '1/3'], ['1/5', 0, -1], [1, 2, 3]], [1, 1, 1, 6]),
    'skew': ([[1, 0, '1/2'], [-1, '1/3', 0], [0, 1, -1], ['1/4', -1, 0], [0, '1/5', 1], ['-1/7', 0, -1]], [2, 3, 4, 2, 3, 1]),
    'octa': ([[1, 2, 3], [-1, 2, 4], [1, -2, 5], [-1, -3, 4], [1, 2, -3], [-2, 1, -4], [1, -3, -2], [-1, -2, -5]], [6, 7, 8, 9, 7, 8, 9, 6]),
    'prism': ([[3, 1, 1], [-2, 4, 1], [-1, -5, 1], [0, 1, -3], ['1/2', 0, 3]], [6, 7, 8, 3, 4]),
    'simp4': ([[-1, 0, 0, 1], [0, -1, 1, 0], [1, 0, -2, 0], [0, 1, 0, -3], [1, 2, 3, 4]], [2, 3, 2, 4, 12]),
    'box4': ([[1, '1/3', 0, 0], [-1, 0, '1/4', 0], [0, 1, 0, '1/5'], ['1/6', -1, 0, 0], [0, 0, 1, '-1/3'], [0, '1/7', -1, 0], ['1/2', 0, 0, 1], [0, 0, '1/5', -1]], [2, 3, 2, 1, 2, 3, 1, 2]),
    'cube': ([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], [1, 2, 3, 1, 2, 2]),
    'tri_up': ([[3, -4], [-1, -1], [1, 5]], [12, 3, 4]),
    'tent': ([[1, 3, '1/2'], [-1, 4, '1/3'], ['1/9', -1, 0], [0, 0, 1], [0, '1/7', -1]], [4, 5, 0, 1, 1]),
    'tent_down': ([[1, -3, '1/2'], [-1, -4, '1/3'], ['1/9', 1, 0], [0, 0, 1], [0, '1/7', -1]], [4, 5, 0, 1, 1]),
    'tet_down': ([[-1, 0, '-1/2'], [0, -1, '-1/3'], ['1/5', 0, 1], [1, 2, -3]], [1, 1, 1, 6]),
    'edge': ([[0, -1, -1], [-2, 0, 0], [2, 2, -1], [2, -1, -1], [-2, 2, -1]] + BOX3, [2, 2, 4, 1, 1] + [3] * 6),
    'edge2': ([[0, 2, -1], [-1, 2, -2], [2, 2, -1], [1, 1, 0], [-2, 2, -1]] + BOX3, [3, 2, 4, 2, 2] + [3] * 6),
    'edge3': ([[0, -2, 1], [1, 0, 2], [1, 2, 2], [2, -1, 2], [-1, 1, 1]] + BOX3, [1, 1, 3, 2, 3] + [3] * 6),
    'roof': ([[1, 0, 1], [-1, 0, 1], [0, 1, 2], [0, -1, 3], [0, 0, -1]], [4, 5, 6, 7, 1]),
}


def num(c, x):
    from . import ocp
    return ocp.const(c, x)


def plane(c):
    c.opts(approx=True, rand=True, lp_split=True)
    cfg = c.cfg
    A, b = SHAPES[cfg['s']]
    A, b = num(c, A), num(c, b)
    if cfg.get('move', True):
        t = c.vec('t', A.shape[1])
        t = c.arr([0 if i in cfg['res'] else t[i] for i in range(A.shape[1])])
        b = b + A.dot(t)
    P = poly(c, A, b)
    if cfg.get('red'):
        k = num(c, cfg['red'][0])
        P.add_inequality(c.arr([list(k)]), c.arr([cfg['red'][1] + (k.dot(t) if cfg.get('move', True) else 0)]))
        A, b = P.A.copy(), P.b.copy()
    res = list(cfg['res'])
    Q = P.project_to(range(len(res)) if cfg.get('range') else res)
    compare(c, Q, A, b, res, c.vec('y', len(res)))
    if cfg.get('corners', True):
        c.cfg_A = list(SHAPES[cfg['s']][0]) + ([cfg['red'][0]] if cfg.get('red') else [])
        corners(c, Q, A, b, res)
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'projecting does not change the polyhedron')


def again(c):
    """the same polytope projected several times, before and after it is constrained further; earlier projections stay as they were."""
    c.opts(approx=True, rand=True, lp_split=True)
    cfg = c.cfg
    A, b = SHAPES[cfg['s']]
    A, b = (c.ints(A) if cfg.get('int') else num(c, A)), num(c, b)
    t = c.vec('t', A.shape[1])
    out = []
    res = [list(r) for r in cfg['res']]
    free = [i for i in range(A.shape[1]) if not any(i in r for r in res)]
    b = b + A.dot(c.arr([t[i] if i in free else 0 for i in range(A.shape[1])]))
    P = poly(c, A, b)
    for k, r in enumerate(res):
        give = list(r)
        Q = P.project_to(give)
        c.check(give == r, 'the list of coordinates is left alone')
        out.append((Q, A, b, r))
        if k == 0 and cfg.get('cut'):
            a, h = c.arr([cfg['cut'][0]]), c.arr([cfg['cut'][1]])
            P.add_inequality(a, h)
            A, b = c.np.vstack((A, a)), c.np.concatenate((b, h))
    for k, (Q, A_, b_, r) in enumerate(out):
        compare(c, Q, A_, b_, r, c.vec('y%d' % k, len(r)))
        c.cfg_A = list(SHAPES[cfg['s']][0]) + ([cfg['cut'][0]] if A_.shape[0] > len(SHAPES[cfg['s']][0]) else [])
        if len(r) > 1 or A.shape[1] == 1:
            corners(c, Q, A_, b_, r)
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'projecting does not change the polyhedron')


SETS = {
    'many': [[0, 0], [6, 1], [7, 5], [4, 8], [-1, 6], [3, 3], [2, 5], [5, 4], [0, 0], [-2, 3]],
    'seven': [[0, 0], [6, 1], [4, 8], [-1, 6], [3, 3], [2, 5], [-2, 3]],
    'cube': [[x, y, z] for x in (0, 2) for y in (0, 3) for z in (-1, 1)] + [[1, 1, 0]],
    'simp4': [[0, 0, 0, 0], [3, 1, 0, 1], [0, 2, 1, 0], [1, 0, 4, 1], [0, 1, 1, 5]],
    'line': [[2], [5], [-1], [3]],
    'tri': [[0, 0], [3, 1], [1, 4]],
    'quad': [[0, 0], [4, 1], [3, 5], [-1, 2]],
    'inner': [[0, 0], [5, 0], [1, 1], [4, 4], [0, 3], [2, 2]],
    'edge': [[0, 0], [4, 0], [2, 0], [0, 4], [2, 2]],
    'dup': [[1, 1], [1, 1], [3, 2], [0, 4]],
    'tet': [[0, 0, 0], [2, 1, 0], [0, 3, 1], [1, 0, 4]],
    'five': [[0, 0, 0], [2, 1, 0], [0, 3, 1], [1, 0, 4], [3, 3, 3]],
}


def hull(c):
    c.opts(approx=True)
    pts = SETS[c.cfg['s']]
    n, k = len(pts[0]), len(pts)
    t = c.vec('t', n)
    P0 = num(c, pts)
    ps = [P0[i] + t for i in range(k)]
    give = [p.copy() for p in ps]
    P = c.geom.Polyhedron.from_convex_hull(give)
    y = c.vec('y', n)
    # y is a combination of the points: free weights
    w = c.vec('w', k)
    inside = c.and_(c.ge(w, 0), c.eq(w.sum(), 1), c.eq(P0.T.dot(w) + t, y))
    c.check(c.implies(inside, member(c, P, y, RELAX)), 'convex combinations are in the hull')
    one = c.np.ones((1, k))
    comb = c.feasible(-c.np.eye(k), c.np.zeros(k) + RELAX, c.np.vstack((P0.T, one)), c.np.concatenate((y - t, c.np.ones(1))))
    c.check(c.implies(member(c, P, y), comb), 'points of the hull are convex combinations')
    c.check(c.and_(*[c.eq(a, q) for a, q in zip(give, ps)]), 'the points given are left alone')


_l = [dict(n=2, a='box', res=[0]), dict(n=2, a='tri', res=[1]), dict(n=2, a='quad', res=[0]), dict(n=2, a='cone', res=[0]), dict(n=2, a='tri', res=[0], c='a'), dict(n=1, a='seg3', res=[0]),
      dict(n=3, a='tet', res=[2]), dict(n=2, a='pent', res=[1]), dict(n=3, a='tet', res=[0]), dict(n=2, a='dup', res=[0]), dict(n=2, a='half', res=[1]), dict(n=3, a='box', res=[1])]
_p = [dict(s='edge', res=[0, 1], move=False), dict(s='edge2', res=[0, 1], move=False), dict(s='edge3', res=[0, 1], move=False), dict(s='tri_up', res=[0, 1]), dict(s='tent', res=[0, 1]), dict(s='tent_down', res=[0, 1]), dict(s='tet_down', res=[0, 1, 2]), dict(s='tet', res=[0, 1]), dict(s='tet', res=[2, 0]), dict(s='tri', res=[0, 1]), dict(s='quad2', res=[1, 0]), dict(s='skew', res=[0, 1]), dict(s='skew', res=[1, 2]), dict(s='octa', res=[0, 2]),
      dict(s='prism', res=[2, 1]), dict(s='pent2', res=[0, 1], range=True), dict(s='simp4', res=[0, 1], range=True), dict(s='tet', res=[0, 1, 2]), dict(s='simp4', res=[1, 3]), dict(s='octa', res=[1, 2]),
      dict(s='simp4', res=[0, 2, 3]), dict(s='prism', res=[0, 1]), dict(s='box4', res=[0, 1]), dict(s='roof', res=[0, 1], move=False), dict(s='box4', res=[3, 1]), dict(s='skew', res=[0, 1, 2]), dict(s='box4', res=[0, 1, 2])]
HARNESSES = [
    Harness('again', again, [dict(s='tet', res=[[0, 1], [0, 1]]), dict(s='tet', res=[[1, 0], [0, 1]], cut=([1, 1, 0], 2)), dict(s='tri', res=[[0], [1]], cut=([1, 1], 3)), dict(s='quad2', res=[[0, 1], [1], [0]], int=True),
                             dict(s='prism', res=[[2, 1], [0]]), dict(s='simp4', res=[[0, 1], [2, 3]]), dict(s='skew', res=[[0], [1, 2], [0]]), dict(s='cube', res=[[0], [0]], int=True)], witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('line', line, _l, witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('plane', plane, _p, quick=25, witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('hull', hull, [dict(s=k) for k in ('tri', 'quad', 'inner', 'edge', 'tet', 'dup', 'five', 'simp4', 'seven', 'many', 'cube')], quick=9, witnesses=4, witness_margins=[0.125, 0.01]),
]
