"""Refusal of inconsistent data."""
from ..runner import Harness
from .geo import poly, data, unchanged

BOUNDS = 'all combinations of row and column numbers up to 3 (piecewise-affine systems: up to 3 systems and 3 domains); entries and the time step are free reals'
OUTSIDE = 'larger dimensions; a different number of columns in A and C of a polyhedron, which the constructor accepts; data that are not arrays'

SH = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def system(c):
    what = c.cfg['what']
    p, q = c.choice('A', SH)
    r = c.choice('rows of B', [1, 2, 3])
    s = c.choice('columns of B', [1, 2])
    t = c.choice('c', [1, 2, 3, 'column']) if what != 'linear' else p
    A, B = c.mat('A', p, q), c.mat('B', r, s)
    o = c.mat('c', p, 1) if t == 'column' else c.vec('c', t)
    good = p == q == r == t
    if what == 'linear':
        res = c.call(c.dts.LinearSystem, A, B)
    else:
        res = c.call(c.dts.AffineSystem, A, B, o)
    if not good:
        c.check(res.raised(ValueError), 'matrices that do not fit together are refused with a ValueError')
        return
    c.check(res.ok, 'consistent matrices are accepted')
    S = res.value
    c.check(c.and_(c.eq(S.A, A), c.eq(S.B, B), S.nx == p, S.nu == s), 'the matrices are stored unchanged')
    if what == 'affine':
        c.check(c.eq(S.c, o), 'the offset is stored unchanged')


def discretise(c):
    """h < 0 and every mismatch refused; decided for every h."""
    fn = c.cfg['fn']
    p, q = c.choice('A', [(1, 1), (1, 2), (2, 1), (2, 2)])
    r = c.choice('rows of B', [1, 2])
    t = c.choice('c', [1, 2]) if not fn.startswith('linear') else p
    A, B, o, h = c.mat('A', p, q), c.mat('B', r, 1), c.vec('c', t), c.real('h')
    good = p == q == r == t
    if good and fn.endswith('hold') and p > 1:
        A = A * 0
    D = c.dts
    f = {'euler': lambda: c.disc.explicit_euler(A, B, o, h), 'hold': lambda: c.disc.zero_order_hold(A, B, o, h),
         'linear euler': lambda: D.LinearSystem.from_continuous(A, B, h, 'explicit_euler'), 'linear hold': lambda: D.LinearSystem.from_continuous(A, B, h),
         'affine euler': lambda: D.AffineSystem.from_continuous(A, B, o, h, 'explicit_euler'), 'affine hold': lambda: D.AffineSystem.from_continuous(A, B, o, h)}[fn]
    res = c.call(f)
    if not good:
        c.check(res.raised(ValueError), 'matrices that do not fit together are refused with a ValueError')
    elif res.ok:
        c.check(c.ge(h, 0), 'a negative step is refused with a ValueError')
    else:
        c.check(c.and_(res.raised(ValueError), c.lt(h, 0)), 'consistent data with a non-negative step is accepted')


def pwa(c):
    cfg = c.cfg
    ns, nd = cfg['n']
    sysd, lin, first = [], [], None
    for i in range(ns):
        nx = c.choice('nx', [1, 2]) if i == cfg['odd'] else 1
        nu = c.choice('nu', [1, 2]) if i == cfg['odd'] else 1
        sysd.append((nx, nu))
    S = []
    for i, (nx, nu) in enumerate(sysd):
        A, B = c.mat('A%d' % i, nx, nx), c.mat('B%d' % i, nx, nu)
        if i == cfg.get('linear'):
            S.append(c.dts.LinearSystem(A, B))
        else:
            S.append(c.dts.AffineSystem(A, B, c.vec('c%d' % i, nx)))
    D, dims = [], []
    for i in range(nd):
        k = c.choice('dimension of a domain', [2, 3]) if i == cfg['oddD'] else 2
        dims.append(k)
        D.append(c.geom.Polyhedron(c.mat('D%d' % i, 2, k), c.vec('h%d' % i, 2)))
    good = ns == nd and ns > 0 and len(set(sysd)) == 1 and set(dims) == {sum(sysd[0])}
    Sl, Dl = list(S), list(D)
    res = c.call(c.dts.PieceWiseAffineSystem, Sl, Dl)
    c.check(len(Sl) == ns and all(a is b for a, b in zip(Sl, S)) and len(Dl) == nd and all(a is b for a, b in zip(Dl, D)), 'the lists of the caller are left alone')
    if not good:
        c.check(res.raised(ValueError), 'systems and domains that do not fit together are refused with a ValueError')
        return
    c.check(res.ok, 'consistent systems and domains are accepted')
    P = res.value
    c.check(P.nm == ns and P.nx == sysd[0][0] and P.nu == sysd[0][1] and len(P.affine_systems) == ns and len(P.domains) == ns, 'the sizes are those of the data')
    for i in range(ns):
        T = P.affine_systems[i]
        off = S[i].c if hasattr(S[i], 'c') else c.np.zeros(sysd[i][0])
        c.check(c.and_(c.eq(T.A, S[i].A), c.eq(T.B, S[i].B), c.eq(T.c, off)), 'each mode has the dynamics given for it (linear: zero offset)')
        c.check(c.and_(c.eq(P.domains[i].A, D[i].A), c.eq(P.domains[i].b, D[i].b)), 'each mode has the domain given for it')


def polyhedron(c):
    m, n = c.choice('A', [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (0, 2)])
    k = c.choice('b', [0, 1, 2, 3, 'column'])
    A = c.mat('A', m, n)
    b = c.mat('b', m, 1) if k == 'column' else c.vec('b', k)
    e = c.choice('equalities', ['none', 'good', 'only C', 'only d', 'short', 'long', 'column', 'two'])
    C = {'none': None, 'only d': None}.get(e, c.mat('C', 2 if e == 'two' else 1, n))
    d = {'none': None, 'only C': None, 'short': c.vec('d', 0), 'long': c.vec('d', 2), 'column': c.mat('d', 1, 1), 'two': c.vec('d', 2)}.get(e, c.vec('d', 1))
    good = k == m and e in ('none', 'good', 'two')
    res = c.call(c.geom.Polyhedron, A, b, C, d)
    if not good:
        c.check(res.raised(ValueError), 'a right-hand side that does not fit is refused with a ValueError')
        return
    c.check(res.ok, 'consistent data is accepted')
    P = res.value
    c.check(tuple(P.C.shape) == (0 if C is None else C.shape[0], n), 'the equalities have the right shape')
    unchanged(c, P, A, b, C, d, 'the data is stored unchanged')


def add(c):
    n = 3
    A, b, C, d = data(c, n, 1, 1)
    P = poly(c, A, b, C, d)
    idx = c.choice('indices', [None, [1], [2, 0]])
    w = n if idx is None else len(idx)
    m = c.choice('rows', [1, 2])
    q = c.choice('columns', [1, 2, 3])
    k = c.choice('size', [1, 2, 'column'])
    F = c.mat('F', m, q)
    g = c.mat('g', m, 1) if k == 'column' else c.vec('g', k)
    res = c.call(P.add_inequality if c.cfg['eq'] == 0 else P.add_equality, F, g, idx)
    if m == k and q == w:
        c.check(res.ok, 'a block that fits is accepted')
        M = P.A if c.cfg['eq'] == 0 else P.C
        c.check(M.shape[0] == 1 + m and M.shape[1] == n, 'the block is added')
    else:
        c.check(res.raised(ValueError), 'a block that does not fit is refused with a ValueError')
        unchanged(c, P, A, b, C, d, 'a refused block leaves the polyhedron as it was')


def bounds(c):
    cls = c.geom.Polyhedron
    i, j = c.choice('lower', [1, 2, 3]), c.choice('upper', [1, 2, 3])
    lo, hi = c.vec('lo', i), c.vec('hi', j)
    idx, n = c.choice('selection', [(None, None), ([0, 2], 3), ([1], 3), ([0], None), (None, 2)])
    w = len(idx) if idx is not None else (i if n is None else n)
    no_n = idx is not None and n is None
    r = c.call(cls.from_bounds, lo, hi, idx, n)
    c.check(r.ok if i == j == w and not no_n else r.raised(ValueError), 'bounds are accepted iff they fit together and to the selection')
    for fn, v, size in ((cls.from_lower_bound, lo, i), (cls.from_upper_bound, hi, j)):
        w = len(idx) if idx is not None else (size if n is None else n)
        r = c.call(fn, v, idx, n)
        c.check(r.ok if size == w and not no_n else r.raised(ValueError), 'bounds are accepted iff they fit together and to the selection')


HARNESSES = [
    Harness('system', system, [dict(what='linear'), dict(what='affine')], witnesses=3),
    Harness('discretise', discretise, [dict(fn=f) for f in ('euler', 'hold', 'linear euler', 'linear hold', 'affine euler', 'affine hold')], witnesses=3),
    Harness('pwa', pwa, [dict(n=n, odd=o, oddD=e, linear=l) for n in ((2, 2), (1, 1), (3, 3), (2, 1), (1, 2), (3, 2), (0, 0), (0, 1)) for o, e, l in ((0, 0, None), (0, 1, 0), (1, 0, 1), (2, 2, 2))], witnesses=2),
    Harness('polyhedron', polyhedron, [dict()], witnesses=3),
    Harness('add', add, [dict(eq=0), dict(eq=1)], witnesses=3),
    Harness('bounds', bounds, [dict()], witnesses=3),
]
