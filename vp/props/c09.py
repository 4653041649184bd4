"""Redundancy removal keeps the set and leaves no redundant row."""
from ..runner import Harness
from .geo import member, in_set, poly, TOL
from . import fam

BOUNDS = 'n <= 3, up to 6 inequalities (with duplicates, scaled copies, zero rows) and 2 equalities; right-hand sides free reals, normals from the families in vp/props/fam.py'
OUTSIDE = 'rows within 1e-6 of being redundant; normals outside the families; dependent equalities or equalities without a nullspace (refused with a ValueError)'
RELAX = 1e-5


def remove(c):
    A, b, C, d = fam.build(c, c.cfg)
    P = poly(c, A, b, C, d)
    m, n = A.shape
    if not c.truth(c.feasible(A, b, C, d)):
        r = c.call(P.remove_redundant_inequalities)
        c.check(r.raised(ValueError), 'removing redundancy from an empty polyhedron raises a ValueError')
        return
    r = c.call(P.remove_redundant_inequalities)
    c.check(r.ok, 'removing redundancy from a non-empty polyhedron succeeds')
    z = c.vec('z', n)
    new = member(c, P, z)
    c.check(c.implies(in_set(c, A, b, C, d, z), c.and_(member(c, P, z, 1e-9) if not c.symbolic else new)), 'no point is cut off')
    c.check(c.implies(new, in_set(c, A, b, C, d, z, RELAX)), 'no point is added')
    # rows kept are rows of the original, each needed
    k = P.A.shape[0]
    for i in range(k):
        keep = [j for j in range(k) if j != i]
        c.check(c.sup(P.A[i], P.A[keep], P.b[keep], C, d).gt(P.b[i]), 'every inequality that is kept cuts something off')
    if C is not None:
        c.check(c.and_(c.eq(P.C, C), c.eq(P.d, d)), 'equalities are left alone')


def facets(c):
    """the list of indices, without modifying the polyhedron."""
    A, b, C, d = fam.build(c, c.cfg)
    P = poly(c, A, b, C, d)
    m, n = A.shape
    feas = c.feasible(A, b, C, d)
    if c.cfg.get('real'):
        c.truth(feas)
    f = P.minimal_facets()
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'minimal_facets does not change the polyhedron')
    if f is None:
        c.check(c.not_(feas), 'minimal_facets returns None only for an empty polyhedron')
        return
    c.check(feas, 'minimal_facets returns None for an empty polyhedron')
    f = [int(i) for i in f]
    c.check(len(set(f)) == len(f) and all(0 <= i < m for i in f), 'minimal_facets returns distinct row indices')
    z = c.vec('z', n)
    c.check(c.implies(in_set(c, A[f], b[f], C, d, z), in_set(c, A, b, C, d, z, RELAX)), 'the listed facets describe the set')
    for i in f:
        keep = [j for j in f if j != i]
        c.check(c.sup(A[i], A[keep], b[keep], C, d).gt(b[i]), 'no listed facet is redundant')


def history(c):
    """one polyhedron, reduced, constrained further and reduced again; other objects built from the same arrays stay as they were."""
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    m, n = A.shape
    c.assume(c.feasible(A, b, C, d))
    A0, b0 = A.copy(), b.copy()
    P = c.geom.Polyhedron(A0, b0, C, d)
    Q = c.geom.Polyhedron(A0, b0, C, d)
    f1 = [int(i) for i in P.minimal_facets()]
    f2 = [int(i) for i in P.minimal_facets()]
    c.check(f1 == f2, 'asking for the facets again gives the same answer')
    P.remove_redundant_inequalities()
    c.check(c.and_(c.eq(P.A, A[f1]), c.eq(P.b, b[f1])), 'the inequalities kept are the listed facets')
    c.check(c.and_(c.eq(Q.A, A), c.eq(Q.b, b), c.eq(A0, A), c.eq(b0, b)), 'the arrays given and other polyhedra built from them are left alone')
    k = P.A.shape[0]
    P.remove_redundant_inequalities()
    c.check(P.A.shape[0] == k, 'a second reduction removes nothing')
    # constrain further
    a, h = c.arr([cfg['cut']]), c.vec('h', 1)
    c.box(h, -20, 20)
    Ap, bp = c.np.vstack((A, a)), c.np.concatenate((b, h))
    c.assume(c.feasible(Ap, bp, C, d))
    P.add_inequality(a, h)
    P.remove_redundant_inequalities()
    z = c.vec('z', n)
    c.check(c.implies(in_set(c, Ap, bp, C, d, z), member(c, P, z, 0 if c.symbolic else 1e-9)), 'no point is cut off by reducing again')
    c.check(c.implies(member(c, P, z), in_set(c, Ap, bp, C, d, z, RELAX)), 'no point is added by reducing again')
    for i in range(P.A.shape[0]):
        keep = [j for j in range(P.A.shape[0]) if j != i]
        c.check(c.sup(P.A[i], P.A[keep], P.b[keep], C, d).gt(P.b[i]), 'every inequality that is kept after the second reduction cuts something off')
    f3 = Q.minimal_facets()
    c.check([int(i) for i in f3] == f1, 'the other polyhedron still has its own facets')


def hist(name, cut, **kw):
    return dict(fam.combos([name])[0], cut=cut, **kw)


_h = [hist('1:seg3', [2]), hist('2:box', [3, 4]), hist('2:tri/0,1', [-3, 4], int=True), hist('2:gon/9', [3, 4]), hist('2:many/2,6', [0, -1]), hist('2:box:b/0,2', [1, 0]),
      hist('3:cut/6', [1, 2, 2]), hist('3:box/0,3', [2, -1, 2], int=True), hist('4:box/0', [1, 1, 1, 1]), hist('2:dup/-', [1, 0], int=True)]
_b = fam.combos(['2:gon/0,8', '2:many/0,2,7', '2:many/5,6,11', '2:many:a/4,12', '3:oct/0,5', '3:cut/6,7', '3:cut:a/8', '4:cut/8,9', '4:cut:a/8', '4:simplex/1,4', '4:prism/2', '5:simplex/5', '4:box:two/0', '5:box/0,4', '5:simplex:a/5',
                 '3:oct/0,1,2'])
_s = fam.combos(['2:gon/0,8@5000', '2:box/0,3@5000', '2:pent/0,4@4000', '2:dup/0,1@9000', '1:seg3/0,2@5000', '2:many/2,7@1000', '3:box/0@9000', '2:tri:a/0@3000', '2:dup/1@9000'])
_n = fam.combos(['1:none', '2:none', '2:none:a', '3:none:two'])
_c = fam.combos(['1:seg', '1:seg3', '1:zero', '1:dup', '2:box', '2:tri', '2:cone', '2:half', '2:strip', '2:quad', '2:zero', '2:wedge', '2:tri:a', '2:box:b',
                 '2:quad:c', '3:tet', '3:tet:a', '3:cone:two', '2:pent', '2:dup', '3:slab:b', '2:pent:a', '2:dup:b', '3:box', '3:tet:two'])
# pympc's own LP solver executed too, not its contract
_r = [dict(x, real=True) for x in fam.combos(['1:seg', '1:zero', '2:cone', '2:half', '2:strip', '2:tri', '2:wedge', '1:seg3', '2:tri:a', '2:zero', '2:none:a', '2:none'])]
# large data, compared to nine digits: an absolute tolerance must not grow with the data
HARNESSES = [
    Harness('remove', remove, _s, tol=1e-9, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('facets', facets, _s, tol=1e-9, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('history', history, _h, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('remove', remove, _n + _b, quick=18, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('facets', facets, _n + _b, quick=18, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('remove', remove, _r, quick=7, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('facets', facets, _r, quick=7, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('remove', remove, _c, quick=20, witnesses=4, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('facets', facets, _c, quick=16, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
]
