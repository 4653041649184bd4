"""Stand-ins for scipy.spatial: exact vertex and facet enumeration (contracts of qhull).

Vertices are the solutions of n independent tight rows that satisfy all rows, facets the hyperplanes
through n independent points that leave all points on one side; every comparison is a branch decided
by the solver, so right-hand sides and points may be symbolic."""
from itertools import combinations

import numpy as rnp
import scipy.spatial as rsp

from . import sym as S
from . import linalg as L
from . import symnp as N
from .sym import Sym, ZERO, ONE, cmp0, and_, or_, not_, Unsupported

try:
    QhullError = rsp.QhullError
except AttributeError:
    from scipy.spatial.qhull import QhullError


def _frame(v, k):
    return N.from_mat(v, (len(v), k))


class HalfspaceIntersection(object):
    def __init__(self, halfspaces, interior_point, incremental=False, qhull_options=None):
        H = N.raw(halfspaces)
        if H.ndim != 2:
            raise ValueError('`halfspaces` should be provided as a 2D array')
        self.halfspaces = halfspaces
        self.interior_point = interior_point
        rows = N.mat(H)
        n = H.shape[1] - 1
        p = [Sym.of(x) for x in N.raw(interior_point).ravel()]
        if len(p) != n:
            raise ValueError('Feasible point has the wrong dimension')
        A, b = [r[:n] for r in rows], [-r[n] for r in rows]
        if not bool(and_(*[cmp0(L.dotv(r, p) - h, 'lt') for r, h in zip(A, b)])):
            raise QhullError('QH6023 qhull input error: feasible point is not clearly inside halfspace')
        self.ndim = n
        self.intersections = _frame(vertices(A, b, n), n)
        self.dual_vertices = list(range(len(rows)))


def vertices(A, b, n):
    out, tights = [], []
    zero = [all(not x.num for x in r) for r in A]
    for sub in combinations([i for i in range(len(A)) if not zero[i]], n):
        if any(set(sub) <= t for t in tights):
            continue
        M = [A[i] for i in sub]
        d = L.det(M)
        if (d.is_const and d.const == 0) or (not d.is_const and bool(cmp0(Sym(d.num), 'eq'))):
            continue
        I = L.inv(M)
        x = [L.dotv(r, [b[i] for i in sub]) for r in I]
        sl = [L.dotv(A[i], x) - b[i] for i in range(len(A)) if i not in sub]
        if not bool(and_(*[cmp0(s, 'le') for s in sl])):
            continue
        tight = set(sub)
        for i in range(len(A)):
            if i not in sub:
                s = L.dotv(A[i], x) - b[i]
                if (s.is_const and s.const == 0) or (not s.is_const and bool(cmp0(s, 'eq'))):
                    tight.add(i)
        if any(set(sub) <= t for t in tights):
            continue
        tights.append(tight)
        out.append(x)
    return out


class ConvexHull(object):
    def __init__(self, points, incremental=False, qhull_options=None):
        P = N.raw(points)
        if P.ndim != 2:
            raise ValueError('`points` should be provided as a 2D array')
        self._pts = N.mat(P)
        self.ndim = P.shape[1]
        self._inc = incremental
        self._open = True
        if self.ndim < 2:
            raise ValueError('Need at least 2-D data')
        if len(self._pts) <= self.ndim:
            raise QhullError('QH6214 qhull input error: not enough points(%d) to construct initial simplex' % len(self._pts))
        self._run()

    def add_points(self, points, restart=False):
        if not self._inc or not self._open:
            raise RuntimeError('incremental mode not enabled or already closed')
        P = N.raw(points)
        if P.ndim != 2 or P.shape[1] != self.ndim:
            raise ValueError('`points` should be provided as a 2D array of the right dimension')
        self._pts = ([] if restart else self._pts) + N.mat(P)
        self._run()

    def close(self):
        self._open = False

    def _run(self):
        n, P = self.ndim, self._pts
        facets, eqs, simp = [], [], []
        for sub in combinations(range(len(P)), n):
            if any(set(sub) <= f for f in facets):
                continue
            a = normal([P[i] for i in sub], n)
            if all(_is0(x) for x in a):
                continue
            off = L.dotv(a, P[sub[0]])
            side, tight = 0, set(sub)
            for k in range(len(P)):
                if k in tight:
                    continue
                s = L.dotv(a, P[k]) - off
                if _is0(s):
                    tight.add(k)
                    continue
                g = 1 if bool(cmp0(s, 'gt')) else -1
                if side == 0:
                    side = g
                elif side != g:
                    side = None
                    break
            if side is None:
                continue
            if side == 0:
                raise QhullError('QH6154 qhull precision error: initial simplex is flat')
            if side > 0:
                a, off = [-x for x in a], -off
            k = L.norm2(a)
            facets.append(tight)
            simp.append(list(sub))
            eqs.append([x / k for x in a] + [-off / k])
        if not facets:
            raise QhullError('QH6154 qhull precision error: initial simplex is flat')
        self.equations = _frame(eqs, n + 1)
        self.simplices = rnp.array(simp)
        self.points = _frame(P, n)
        # extreme points: the tight facets meet in that point alone
        ext = []
        for i in range(len(P)):
            fs = [e[:n] for e, t in zip(eqs, facets) if i in t]
            if fs and L.rank(fs) == n and not any(all(_is0(x - y) for x, y in zip(P[i], P[j])) for j in ext):
                ext.append(i)
        if n == 2:
            ext = _cycle(ext, facets)
        self.vertices = rnp.array(ext)
        self.nsimplex = len(simp)


def _is0(s):
    return s.const == 0 if s.is_const else bool(cmp0(s, 'eq'))


def normal(pts, n):
    """normal of the hyperplane through n points (zero if dependent)."""
    D = [[x - y for x, y in zip(p, pts[0])] for p in pts[1:]]
    out = []
    for j in range(n):
        m = L.det([[r[c] for c in range(n) if c != j] for r in D])
        out.append(-m if j % 2 else m)
    return out


def _cycle(ext, facets):
    out = [ext[0]]
    while len(out) < len(ext):
        for i in ext:
            if i not in out and any(i in f and out[-1] in f for f in facets):
                out.append(i)
                break
        else:
            break
    return out


TABLE = {'HalfspaceIntersection': HalfspaceIntersection, 'ConvexHull': ConvexHull, 'QhullError': QhullError}
