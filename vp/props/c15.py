"""Vertex enumeration."""
from fractions import Fraction
from itertools import combinations
from ..runner import Harness
from .geo import in_set, poly, TOL
from . import fam
from .c12 import norms

BOUNDS = 'n <= 3, up to 6 inequalities and 2 equalities (n <= 5, 15 inequalities with some of the right-hand sides constant; integer arrays; sets constrained and asked again); right-hand sides free reals (empty, degenerate and redundant cases included), normals with rational norms from vp/props/fam.py'
OUTSIDE = 'sets that are flat within their equalities (radius below 1e-4); normals outside the families; vertices within 1e-6 of each other'
ASSUMPTIONS = ['scipy.spatial.HalfspaceIntersection returns the basic feasible solutions of the halfspaces it is given', 'the LP and QP solvers meet their contracts (C17, C18)']


def solve(M, n):
    """inverse of a constant rational matrix, None if singular."""
    A = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        k = A[i][i]
        A[i] = [x / k for x in A[i]]
        for r in range(n):
            if r != i and A[r][i]:
                f = A[r][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
    return [r[n:] for r in A]


def candidates(c, Am, Cm, b, d):
    """all basic solutions of {A x <= b, C x = d} (rows constant, right-hand sides symbolic)."""
    n, k = len(Am[0]), len(Cm)
    out = []
    for sub in combinations(range(len(Am)), n - k):
        I = solve([Am[i] for i in sub] + list(Cm), n)
        if I is None:
            continue
        h = [b[i] for i in sub] + [d[i] for i in range(k)]
        out.append(c.arr([sum((q if c.symbolic else float(q)) * v for q, v in zip(r, h)) for r in I]))
    return out


def near(c, v, w):
    return c.and_(c.le(v - w, 1e-5), c.ge(v - w, -1e-5))


def exact(c, P, Am, Cm, b, d, tag=''):
    A = c.arr(Am)
    C = c.arr(Cm) if Cm else None
    n = len(Am[0])
    V = P.vertices
    if V is None:
        return None
    V = [v for v in V]
    c.check(all(tuple(v.shape) == (n,) for v in V), 'vertices are points of the space' + tag)
    cand = candidates(c, Am, Cm or [], b, d)
    for v in V:
        c.check(in_set(c, A, b, C, d, v, TOL), 'every vertex satisfies all constraints' + tag)
        c.check(c.or_(*[near(c, v, w) for w in cand]), 'every vertex is an extreme point' + tag)
    for w in cand:
        c.check(c.implies(in_set(c, A, b, C, d, w, 0 if c.symbolic else -1e-5), c.or_(*[near(c, v, w) for v in V])), 'no extreme point is missing' + tag)
    for v, w in combinations(V, 2):
        c.check(c.not_(c.eq(v, w)), 'no vertex is repeated' + tag)
    return V


def vertices(c):
    c.opts(approx=True)
    cfg = c.cfg
    n = cfg['n']
    A, b, C, d = fam.build(c, cfg)
    Am, Cm = fam.A[n][cfg['a']], fam.C[n][cfg['c']] if cfg.get('c') else []
    ray = fam.recession(Am, Cm)
    nr = c.arr(norms(c, A, C))
    if not ray:
        # flat sets are outside the claim
        c.assume(c.or_(c.not_(c.feasible(A, b, C, d)), c.feasible(A, b - 1e-4 * nr, C, d)))
    P = poly(c, A, b, C, d)
    V = exact(c, P, Am, Cm, b, d)
    if V is None:
        c.check(c.or_(ray, c.not_(c.feasible(A, b - 1e-4 * nr, C, d))), 'vertices are None only for empty, unbounded and flat sets')
        return
    c.check(not ray, 'unbounded polyhedra have no vertices')
    c.check(c.feasible(A, b, C, d), 'empty polyhedra have no vertices')
    W = P.vertices
    c.check(len(W) == len(V) and all(c.truth(c.eq(v, w)) for v, w in zip(V, W)), 'asking again gives the same vertices')
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'asking does not change the polyhedron')


def history(c):
    """vertices handed out earlier stay as they were; the constrained polyhedron has its own; so has one built from the same arrays."""
    c.opts(approx=True)
    cfg = c.cfg
    n = cfg['n']
    A, b, C, d = fam.build(c, cfg)
    Am, Cm = fam.A[n][cfg['a']], fam.C[n][cfg['c']] if cfg.get('c') else []
    nr = c.arr(norms(c, A, C))
    c.assume(c.feasible(A, b - 1e-3 * nr, C, d))
    A0, b0 = A.copy(), b.copy()
    P, Q = c.geom.Polyhedron(A0, b0, C, d), c.geom.Polyhedron(A0, b0, C, d)
    V = exact(c, P, Am, Cm, b, d)
    c.check(V is not None, 'bounded full-dimensional sets have vertices')
    keep = [v.copy() for v in V]
    a, h = c.arr([cfg['cut']]), c.vec('h', 1)
    c.box(h, -50, 50)
    A1, b1 = c.np.vstack((A, a)), c.np.concatenate((b, h))
    n1 = c.arr(norms(c, A1, C))
    c.assume(c.feasible(A1, b1 - 1e-3 * n1, C, d))
    P.add_inequality(a, h)
    W = exact(c, P, list(Am) + [cfg['cut']], Cm, b1, d, ' (after a constraint was added)')
    c.check(W is not None, 'bounded full-dimensional sets have vertices (after a constraint was added)')
    c.check(c.and_(*[c.eq(v, k) for v, k in zip(V, keep)]), 'vertices handed out earlier are left alone')
    U = exact(c, Q, Am, Cm, b, d, ' (of another polyhedron)')
    c.check(len(U) == len(V), 'equal polyhedra have equally many vertices')
    c.check(c.and_(c.eq(A0, A), c.eq(b0, b)), 'asking leaves the arrays given alone')


def hist(name, cut, **kw):
    return dict(fam.combos([name])[0], cut=cut, **kw)


_h = [hist('1:seg', [2]), hist('1:seg/-', [-2], int=True), hist('2:tri/0', [0, 3]), hist('2:box/0', [3, 4], int=True), hist('2:quad/0', [-3, -4]), hist('2:gon/-', [1, 0]), hist('2:box:a/0', [1, 0], d0=True),
      hist('3:box/-', [1, 2, 2]), hist('3:tet/3', [2, -1, 2]), hist('4:simplex/-', [1, 0, 0, 0])]
_b = fam.combos(['2:gon/0', '2:many/0', '2:many/5', '2:many:a/4', '3:oct/0', '3:cut/6', '3:cut:two/6', '4:cut/8', '4:prism:a/0', '4:simplex/1,4', '4:box:two/0', '5:simplex/5', '5:box/0'])
_b += fam.combos(['1:seg/0', '2:box/0,1', '2:tri:a/0', '2:box/-', '3:box/0', '2:quad/0'], int=True)
_c = fam.combos(['1:seg', '1:seg3', '1:dup', '1:ray', '2:box', '2:tri', '2:cone', '2:quad', '2:tri:a', '2:box:b', '2:strip:c', '2:quad:c', '3:tet', '3:tet:a', '3:tet:two',
                 '2:half', '2:dup', '2:pent', '3:cone', '2:pent:a', '3:slab:b', '3:box:b', '3:box:two', '2:wedge', '3:box'])
HARNESSES = [
    Harness('history', history, _h, witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('vertices', vertices, _b, witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('vertices', vertices, _c, quick=22, witnesses=4, witness_margins=[0.125, 0.01], max_paths=4000),
]
