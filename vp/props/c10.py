"""Emptiness and boundedness."""
from ..runner import Harness
from .geo import member, in_set, poly, data
from . import fam

BOUNDS = 'n <= 3, up to 6 inequalities and 2 equalities (n <= 5, 15 inequalities with some of the right-hand sides constant; integer arrays; polyhedra constrained and asked again); right-hand sides free reals, constraint normals from the families in vp/props/fam.py (free reals in dimension 1)'
OUTSIDE = 'sets within 1e-6 of becoming empty; normals outside the families for n >= 2'
ASSUMPTIONS = []


def empty(c):
    A, b, C, d = fam.build(c, c.cfg)
    P = poly(c, A, b, C, d)
    e = P.empty
    c.check(c.iff(c.cond(e), c.not_(c.feasible(A, b, C, d))), 'empty iff no point satisfies the constraints')
    z = c.vec('z', c.cfg['n'])
    if e:
        c.check(c.not_(in_set(c, A, b, C, d, z)), 'an empty polyhedron has no point')
    c.check(bool(P.empty) == bool(e), 'asking again gives the same answer')
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b)), 'asking does not change the polyhedron')


def bounded(c):
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    P = poly(c, A, b, C, d)
    ray = fam.recession(fam.A[cfg['n']][cfg['a']], fam.C[cfg['n']][cfg['c']] if cfg['c'] else (), cfg['n'])
    if cfg.get('prime'):
        P.empty
    got = P.bounded
    want = c.or_(not ray, c.not_(c.feasible(A, b, C, d)))
    c.check(c.iff(c.cond(got), want), 'bounded iff empty or without a recession direction')
    c.check(bool(P.bounded) == bool(got), 'asking again gives the same answer')


def line(c):
    """dimension 1, free normals."""
    m = c.cfg['m']
    A, b = c.mat('A', m, 1), c.vec('b', m)
    for i in range(m):
        c.assume(c.or_(c.ge(A[i, 0], 0.1), c.le(A[i, 0], -0.1)))
    z = c.vec('z', 1)
    c.points(z)
    P = poly(c, A, b)
    pos = c.or_(*[c.gt(A[i, 0], 0) for i in range(m)])
    neg = c.or_(*[c.lt(A[i, 0], 0) for i in range(m)])
    e = P.empty
    if e:
        c.check(c.not_(in_set(c, A, b, None, None, z)), 'an empty polyhedron has no point')
        # lower bound above upper bound for some pair of rows
        c.check(c.or_(*[c.and_(c.gt(A[i, 0], 0), c.lt(A[j, 0], 0), c.gt(b[j] * A[i, 0], b[i] * A[j, 0]) if False else
                               c.lt(b[i] * -A[j, 0] + b[j] * A[i, 0], 0)) for i in range(m) for j in range(m) if i != j]),
                'an empty interval has contradictory bounds')
        c.check(c.cond(P.bounded), 'empty sets are reported bounded')
    else:
        c.check(c.and_(*[c.or_(c.le(A[i, 0], 0), c.ge(A[j, 0], 0), c.ge(b[i] * -A[j, 0] + b[j] * A[i, 0], 0))
                         for i in range(m) for j in range(m) if i != j]), 'a non-empty interval has consistent bounds')
        c.check(c.iff(c.cond(P.bounded), c.and_(pos, neg)), 'an interval is bounded iff it has an upper and a lower bound')


def history(c):
    """emptiness and boundedness of a polyhedron that is being constrained, beside one built from the same arrays."""
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    n = A.shape[1]
    A0, b0 = A.copy(), b.copy()
    P, Q = c.geom.Polyhedron(A0, b0, C, d), c.geom.Polyhedron(A0, b0, C, d)
    Am, Cm = fam.A[n][cfg['a']], fam.C[n][cfg['c']] if cfg['c'] else []

    def ask(P, Ax, bx, rows):
        feas = c.feasible(Ax, bx, C, d)
        order = cfg.get('order', 'eb')
        for o in order:
            if o == 'e':
                c.check(c.iff(c.cond(P.empty), c.not_(feas)), 'empty iff no point satisfies the constraints')
            else:
                c.check(c.iff(c.cond(P.bounded), c.or_(not fam.recession(rows, Cm, n), c.not_(feas))), 'bounded iff empty or without a recession direction')
    ask(P, A, b, Am)
    Ax, bx, rows = A, b, list(Am)
    for k, r in enumerate(cfg['cuts']):
        a, h = c.arr([r]), c.vec('h%d' % k, 1)
        c.box(h, -50, 50)
        Ax, bx, rows = c.np.vstack((Ax, a)), c.np.concatenate((bx, h)), rows + [r]
        P.add_inequality(a, h)
        ask(P, Ax, bx, rows)
    ask(P, Ax, bx, rows)
    ask(Q, A, b, Am)
    c.check(c.and_(c.eq(A0, A), c.eq(b0, b)), 'asking leaves the arrays given alone')


def hist(name, cuts, **kw):
    return dict(fam.combos([name])[0], cuts=cuts, **kw)


_h = [hist('1:ray', [[3]]), hist('1:seg', [[0], [1]], order='be'), hist('2:half', [[-1, 0], [0, 1]]), hist('2:cone', [[1, 1]], order='be'), hist('2:strip', [[4, -3], [-4, 3]]),
      hist('2:box', [[1, 1]]), hist('2:strip:c', [[1, 0]]), hist('2:gon/1,5', [[5, 12]]), hist('3:slab', [[1, 0, 0], [0, 0, -1]], int=True), hist('3:cone', [[0, 0, -1]], order='be'),
      hist('4:prism/0', [[0, 0, 0, -1]]), hist('2:tri/-', [[-1, -1]], int=True),
      hist('1:none', [[1], [-2]]), hist('2:none', [[3, 4], [-3, -4]], order='be'), hist('2:none:a', [[1, 0], [-1, 0]])]
_b = fam.combos(['2:gon', '2:gon/0,3,8', '2:many', '2:many/0,1,4', '2:many:a/4,12', '3:oct', '3:cut', '3:cut:a', '4:cut/0,8,9', '4:cut:a/1,8', '4:simplex', '4:prism', '4:prism:two', '5:simplex', '5:simplex:a', '4:box', '4:box:two', '5:box/0,1,4'])
_s = fam.combos(['1:seg/0,1@5000', '2:box/0,1@5000', '2:gon/0,8@5000', '2:pent/1,4@5000', '2:tri:a/0@3000', '3:box/0,1@9000'])
_i = fam.combos(['1:seg/0', '2:box/0,1', '2:tri:a/0', '2:quad/0,3', '2:strip/0', '3:tet/0,3', '2:gon/2', '2:box/-', '2:half/-'], int=True)
_e = fam.combos(['1:seg', '1:seg3', '1:zero', '2:box', '2:tri', '2:cone', '2:half', '2:strip', '2:quad', '2:zero', '2:tri:a', '2:box:b', '2:strip:c',
                 '3:tet', '3:tet:a', '3:cone:two', '3:slab:b', '2:pent', '2:dup', '2:wedge', '1:ray', '3:box', '3:box:c', '3:cone', '1:none', '2:none', '3:none', '2:none:a', '3:none:two', '3:none:a'])
# pympc's own LP solver executed too, not its contract
_r = [dict(x, real=True) for x in fam.combos(['1:seg', '1:seg3', '1:zero', '2:tri', '2:cone', '2:half', '2:strip', '2:quad', '2:zero', '2:tri:a', '2:strip:c', '3:slab:b', '2:pent', '2:dup',
                                              '2:wedge', '1:ray', '3:cone', '2:box', '3:tet', '2:box:b', '3:tet:a', '3:cone:two', '1:none', '2:none', '2:none:a', '3:none:two'])]
# large data, compared to nine digits: an absolute tolerance must not grow with the data
HARNESSES = [
    Harness('empty', empty, _s, tol=1e-9, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('bounded', bounded, _s, tol=1e-9, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('history', history, _h, witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('empty', empty, _b + _i, witnesses=2, witness_margins=[0.125, 0.01]),
    Harness('bounded', bounded, _b + _i, witnesses=2, witness_margins=[0.125, 0.01]),
    Harness('empty', empty, _r, witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('bounded', bounded, _r, witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('empty', empty, _e, witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('bounded', bounded, _e + [dict(x, prime=True) for x in _e[:8]], witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('line', line, [dict(m=1), dict(m=2), dict(m=3), dict(m=4)], witnesses=4, witness_margins=[0.125, 0.01]),
]
