"""Membership test and constructors of polyhedra."""
from ..runner import Harness
from .geo import member, in_set, poly, data, TOL

BOUNDS = 'n <= 3, none to 3 inequalities and none to 2 equalities; all matrices, right-hand sides, bounds and the tested point are free reals; constant rows up to n = 7 and 16 rows, float and integer arrays; index lists: none, single, several, unordered, repeated, negative; lists, tuples, arrays, ranges'
OUTSIDE = 'points closer to the boundary than 1e-6 times the row scale (1e-5 for data of size 5000); larger dimensions'


def contains(c):
    n, m, k = c.cfg['n'], c.cfg['m'], c.cfg['k']
    A, b, C, d = data(c, n, m, k)
    P = poly(c, A, b, C, d)
    z = c.vec('z', n)
    r = P.contains(z.copy())
    if c.truth(c.cond(r)):
        c.check(in_set(c, A, b, C, d, z, TOL), 'a contained point satisfies every inequality and equality')
    else:
        c.check(c.not_(in_set(c, A, b, C, d, z)), 'a point that satisfies every constraint is contained')


def contains_tol(c):
    """the tolerance is the one asked for."""
    n, m, k = c.cfg['n'], c.cfg['m'], c.cfg['k']
    A, b, C, d = data(c, n, m, k)
    P = poly(c, A, b, C, d)
    z = c.vec('z', n)
    tol = c.real('tol')
    c.assume(c.and_(c.ge(tol, 0.01), c.le(tol, 1)))
    r = P.contains(z.copy(), tol)
    if c.truth(c.cond(r)):
        c.check(in_set(c, A, b, C, d, z, tol), 'a point farther than tol is not contained')
    else:
        c.check(c.not_(in_set(c, A, b, C, d, z, tol)), 'a point closer than tol is contained')


def large(c):
    """large data: the tolerance stays the absolute one asked for."""
    n, k, s = c.cfg['n'], c.cfg['k'], c.cfg['scale']
    A, C = c.arr(irregular(4, n, 1)), c.arr(irregular(k, n, 2)) if k else None
    b = c.arr([c.const(s * (1 + i)) for i in range(4)])
    d = c.arr([c.const(s * (i - 1)) for i in range(k)]) if k else None
    P = poly(c, A, b, C, d)
    z = c.vec('z', n)
    c.box(z, -20 * s, 20 * s)
    a = () if 'tol' not in c.cfg else (c.cfg['tol'],)
    tol = c.cfg.get('tol', 1e-7)
    if c.truth(c.cond(P.contains(z.copy(), *a))):
        c.check(in_set(c, A, b, C, d, z, 2 * tol + TOL), 'a contained point satisfies every inequality and equality')
    else:
        c.check(c.not_(in_set(c, A, b, C, d, z, tol / 2)), 'a point that satisfies every constraint is contained')


def irregular(a, b, k):
    return [[(5 * i + 7 * j + 3 * k + i * j * (k + 1)) % 9 - 4 for j in range(b)] for i in range(a)]


def wide(c):
    """constant rows in larger dimensions, float or integer arrays; the same set asked twice, before and after it grows."""
    n, m, k = c.cfg['n'], c.cfg['m'], c.cfg['k']
    mk = c.ints if c.cfg.get('int') else c.arr
    A, C = mk(irregular(m, n, 1)), mk(irregular(k, n, 2)) if k else None
    b = mk([(3 * i) % 5 for i in range(m)]) if c.cfg.get('int') else c.vec('b', m)
    d = None if not k else (mk([i % 2 for i in range(k)]) if c.cfg.get('int') else c.vec('d', k))
    P = c.geom.Polyhedron(A, b, C, d)
    z = c.vec('z', n)
    y = c.arr([c.const(0)] * n)
    P.contains(y)
    y[:] = z
    inside = c.truth(c.cond(P.contains(y)))
    if inside:
        c.check(in_set(c, A, b, C, d, z, TOL), 'a contained point satisfies every inequality and equality')
    else:
        c.check(c.not_(in_set(c, A, b, C, d, z)), 'a point that satisfies every constraint is contained')
    c.check(c.eq(y, z), 'the point is left alone')
    F, g = mk([[1] * n, [-1] * n]), mk([2, 3])
    P.add_inequality(F, g)
    if c.truth(c.cond(P.contains(y))):
        c.check(c.and_(in_set(c, A, b, C, d, z, TOL), c.le(F.dot(z), g + TOL)), 'constraints added later are tested too')
    else:
        c.check(c.not_(c.and_(in_set(c, A, b, C, d, z), c.le(F.dot(z), g))), 'a point that satisfies every constraint is contained, after constraints were added')


def as_given(c):
    """index lists of any kind; bounds and blocks in float or integer arrays."""
    n, kind = c.cfg['n'], c.cfg['kind']
    ids = c.cfg['idx']
    pos = [i % n for i in ids]
    given = {'list': list(ids), 'tuple': tuple(ids), 'array': __import__('numpy').array(ids), 'range': range(ids[0], ids[-1] + 1)}[kind]
    mk = c.ints if c.cfg.get('int') else (lambda v: c.arr([c.const(t) for t in v]))
    z = c.vec('z', n)
    t = len(pos)
    lo, hi = mk([-1 - i for i in range(t)]), mk([2 + i for i in range(t)])
    zi = [z[i] for i in pos]
    low = c.and_(*[c.ge(a, v) for a, v in zip(zi, lo)])
    up = c.and_(*[c.le(a, v) for a, v in zip(zi, hi)])
    cls = c.geom.Polyhedron
    keep = lo.copy(), hi.copy()
    for P, spec in ((cls.from_lower_bound(lo, given, n), low), (cls.from_upper_bound(hi, given, n), up), (cls.from_bounds(lo, hi, given, n), c.and_(low, up))):
        c.check(c.iff(member(c, P, z), spec), 'bounds apply to the selected coordinates, in the order given')
    A, b = c.arr(irregular(3, n, 1)), c.vec('b', 3)
    F, g = (c.ints if c.cfg.get('int') else c.arr)(irregular(2, t, 2)), mk([1, 2])
    sel = c.arr(zi)
    old = c.le(A.dot(z), b)
    for name, spec in (('lower', low), ('upper', up), ('bounds', c.and_(low, up)), ('ineq', c.le(F.dot(sel), g)), ('eq', c.eq(F.dot(sel), g))):
        P = cls(A, b)
        {'lower': lambda: P.add_lower_bound(lo, given), 'upper': lambda: P.add_upper_bound(hi, given), 'bounds': lambda: P.add_bounds(lo, hi, given),
         'ineq': lambda: P.add_inequality(F, g, given), 'eq': lambda: P.add_equality(F, g, given)}[name]()
        c.check(c.iff(member(c, P, z), c.and_(old, spec)), 'adding a constraint on x[indices] keeps exactly the points of the set that satisfy it')
    c.check(c.and_(c.eq(lo, keep[0]), c.eq(hi, keep[1]), c.eq(F, c.arr(irregular(2, t, 2))), c.eq(A, c.arr(irregular(3, n, 1))), list(given) == list(ids)), 'the given arrays are left alone')


def bound_spec(c, z, lo, hi, idx, n):
    ids = list(range(n)) if idx is None else list(idx)
    xs = []
    for j, i in enumerate(ids):
        if lo is not None:
            xs.append(c.ge(z[i], lo[j]))
        if hi is not None:
            xs.append(c.le(z[i], hi[j]))
    return c.and_(*xs)


def added(c):
    n, idx, what = c.cfg['n'], c.cfg['idx'], c.cfg['what']
    A, b, C, d = data(c, n, 2, c.cfg.get('k', 0))
    P = poly(c, A, b, C, d)
    z = c.vec('z', n)
    ids = list(range(n)) if idx is None else list(idx)
    m = len(ids)
    old = in_set(c, A, b, C, d, z)
    if what == 'inequality':
        F, g = c.mat('F', 2, m), c.vec('g', 2)
        P.add_inequality(F.copy(), g.copy(), idx)
        new = c.le(F.dot(c.arr([z[i] for i in ids])), g)
    elif what == 'equality':
        F, g = c.mat('F', 2, m), c.vec('g', 2)
        P.add_equality(F.copy(), g.copy(), idx)
        new = c.eq(F.dot(c.arr([z[i] for i in ids])), g)
    else:
        lo, hi = c.vec('lo', m), c.vec('hi', m)
        if what == 'lower':
            P.add_lower_bound(lo.copy(), idx)
            new = bound_spec(c, z, lo, None, idx, n)
        elif what == 'upper':
            P.add_upper_bound(hi.copy(), idx)
            new = bound_spec(c, z, None, hi, idx, n)
        elif what == 'scalar':
            P.add_lower_bound(lo[0], idx)
            P.add_upper_bound(hi[0], idx)
            new = bound_spec(c, z, lo, hi, idx, n)
        else:
            P.add_bounds(lo.copy(), hi.copy(), idx)
            new = bound_spec(c, z, lo, hi, idx, n)
    c.check(c.iff(member(c, P, z), c.and_(old, new)), 'adding a constraint on x[indices] keeps exactly the points of the set that satisfy it')


def made(c):
    n, idx, what = c.cfg['n'], c.cfg['idx'], c.cfg['what']
    z = c.vec('z', n)
    m = n if idx is None else len(idx)
    lo, hi = c.vec('lo', m), c.vec('hi', m)
    nn = None if idx is None else n
    if c.cfg.get('give_n'):
        nn = n
    cls = c.geom.Polyhedron
    if what == 'lower':
        P = cls.from_lower_bound(lo.copy(), idx, nn)
        spec = bound_spec(c, z, lo, None, idx, n)
    elif what == 'upper':
        P = cls.from_upper_bound(hi.copy(), idx, nn)
        spec = bound_spec(c, z, None, hi, idx, n)
    else:
        P = cls.from_bounds(lo.copy(), hi.copy(), idx, nn)
        spec = bound_spec(c, z, lo, hi, idx, n)
    c.check(P.A.shape[1] == n, 'the polyhedron lives in the right space')
    c.check(c.iff(member(c, P, z), spec), 'from_lower_bound, from_upper_bound and from_bounds describe exactly the box on x[indices]')
    r = P.contains(z.copy())
    if c.truth(c.cond(r)):
        c.check(member(c, P, z, TOL), 'contains agrees with the box')
    else:
        c.check(c.not_(spec), 'contains agrees with the box')


def sequence(c):
    """constraints accumulate over a sequence of additions."""
    n = 2
    z = c.vec('z', n)
    lo, hi = c.vec('lo', n), c.vec('hi', n)
    P = c.geom.Polyhedron.from_bounds(lo.copy(), hi.copy())
    F, g = c.mat('F', 1, n), c.vec('g', 1)
    G, h = c.mat('G', 1, 1), c.vec('h', 1)
    up = c.vec('up', 1)
    spec = [bound_spec(c, z, lo, hi, None, n), c.le(F.dot(z), g), c.eq(G.dot(z[1:]), h), c.le(z[:1], up)]
    acts = [lambda: P.add_inequality(F.copy(), g.copy()), lambda: P.add_equality(G.copy(), h.copy(), [1]),
            lambda: P.add_upper_bound(up.copy(), [0])]
    done = spec[:1]
    for i in c.cfg['order']:
        acts[i]()
        done.append(spec[i + 1])
        c.check(c.iff(member(c, P, z), c.and_(*done)), 'every constraint added so far is enforced, and no other')


def size(c):
    """a bound or a block of the wrong size is refused."""
    n = 3
    A, b, C, d = data(c, n, 2, 0)
    P = poly(c, A, b)
    z = c.vec('z', n)
    m, idx, what = c.cfg['m'], c.cfg['idx'], c.cfg['what']
    v = c.vec('v', m)
    good = m == (n if idx is None else len(idx))
    cls = c.geom.Polyhedron
    fn = {'lower': lambda: P.add_lower_bound(v, idx), 'upper': lambda: P.add_upper_bound(v, idx), 'bounds': lambda: P.add_bounds(v, v, idx),
          'flower': lambda: cls.from_lower_bound(v, idx, n), 'fupper': lambda: cls.from_upper_bound(v, idx, n),
          'fbounds': lambda: cls.from_bounds(v, v, idx, n)}[what]
    r = c.call(fn)
    c.check(r.ok if good else r.raised(ValueError), 'a bound whose size does not match the indices is refused with a ValueError')
    if not good and what == 'lower':
        c.check(c.iff(member(c, P, z), in_set(c, A, b, C, d, z)), 'a refused constraint leaves the set unchanged')


_i = [None, [0], [2], [0, 2], [2, 0], [1, 2, 0], [1, 1]]
_a = [dict(n=3, idx=i, what=w) for w in ('inequality', 'equality', 'lower', 'upper', 'bounds') for i in _i] + \
     [dict(n=3, idx=[1], what='scalar'), dict(n=2, idx=[0], what='scalar'), dict(n=2, idx=None, what='equality', k=1), dict(n=2, idx=[1], what='inequality', k=1),
      dict(n=1, idx=None, what='bounds'), dict(n=2, idx=[1, 0], what='bounds', k=2)]
_cn = [dict(n=n, m=m, k=k) for n, m, k in ((1, 1, 0), (2, 0, 0), (2, 0, 1), (1, 0, 2), (2, 2, 0), (2, 1, 1), (2, 2, 2), (1, 1, 2), (3, 2, 2), (3, 3, 1))]
HARNESSES = [
    Harness('large', large, [dict(n=1, k=0, scale=5000), dict(n=2, k=0, scale=5000), dict(n=2, k=1, scale=2000), dict(n=3, k=2, scale=1000), dict(n=2, k=1, scale=2000, tol=1e-4)], tol=1e-9, witnesses=3),
    Harness('contains', contains, _cn, witnesses=3),
    Harness('contains_tol', contains_tol, _cn, witnesses=3),
    Harness('wide', wide, [dict(n=5, m=8, k=0), dict(n=4, m=5, k=2), dict(n=7, m=16, k=1), dict(n=3, m=4, k=0, int=True), dict(n=3, m=4, k=1, int=True), dict(n=2, m=12, k=0), dict(n=2, m=2, k=3)], witnesses=4),
    Harness('as_given', as_given, [dict(n=3, idx=[2, 0], kind=k) for k in ('list', 'tuple', 'array')] + [dict(n=4, idx=[1, 2], kind='range'), dict(n=3, idx=[-1], kind='list'), dict(n=4, idx=[-1, 0, -2], kind='array'),
                                   dict(n=6, idx=[5, 3, 0, 1], kind='list'), dict(n=6, idx=[0, 1, 2, 3, 4, 5], kind='range'), dict(n=3, idx=[2, 0], kind='list', int=True), dict(n=2, idx=[1, 0], kind='tuple', int=True), dict(n=1, idx=[0], kind='list')], witnesses=2),
    Harness('added', added, _a, witnesses=2),
    Harness('made', made, [dict(n=n, idx=i, what=w) for w in ('lower', 'upper', 'bounds') for n, i in
                           ((2, None), (3, [1]), (3, [2, 0]), (2, [1, 0]), (4, [0, 3]))] +
            [dict(n=2, idx=None, what='bounds', give_n=True)], witnesses=2),
    Harness('sequence', sequence, [dict(order=o) for o in ([0, 1, 2], [2, 1, 0], [1, 0, 2])], witnesses=2),
    Harness('size', size, [dict(m=m, idx=i, what=w) for w in ('lower', 'upper', 'bounds', 'flower', 'fupper', 'fbounds')
                           for m, i in ((2, None), (1, [0, 2]), (2, [0, 1, 2]), (2, [1]), (2, [0, 2]), (4, None))], witnesses=1),
]
