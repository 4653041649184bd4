"""Chebyshev radius and centre."""
from fractions import Fraction
from ..runner import Harness
from .geo import member, in_set, poly, TOL
from . import fam

BOUNDS = 'n <= 3, up to 5 inequalities and 2 equalities (n <= 5, 15 inequalities with some of the right-hand sides constant; integer arrays; sets constrained and asked again); right-hand sides free reals (empty, flat and unbounded sets included), normals with rational norms from vp/props/fam.py; compared with every ball (free centre and radius)'
OUTSIDE = 'normals outside the families; zero rows that make the set empty (no ball notion); equalities that are dependent or leave a single point'


def norms(c, A, C):
    """norm of each row of A projected on the nullspace of C (rational for the families used)."""
    out = []
    for i in range(A.shape[0]):
        v = [float(t) if not c.symbolic else t for t in A[i]]
        v = c.arr(v)
        if C is not None:
            # orthogonalise against the rows of C (mutually orthogonal in the families)
            for k in range(C.shape[0]):
                v = v - C[k] * (A[i].dot(C[k]) / C[k].dot(C[k]))
        out.append(c.sqrt(v.dot(v)))
    return out


def flat_rows(c, cfg, b, d):
    """inequalities that are constant on {C x = d}: precondition, they hold (see OUTSIDE)."""
    if not cfg.get('c'):
        return
    for i, row in enumerate(fam.A[cfg['n']][cfg['a']]):
        v, val = [Fraction(t) for t in row], 0
        for k, q in enumerate(fam.C[cfg['n']][cfg['c']]):
            w = Fraction(sum(x * y for x, y in zip(row, q)), sum(x * x for x in q))
            v = [x - w * y for x, y in zip(v, q)]
            val = val + d[k] * (w if c.symbolic else float(w))
        if all(t == 0 for t in v):
            c.assume(c.le(val, b[i]))


def ball(c):
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    m, n = A.shape
    flat_rows(c, cfg, b, d)
    P = poly(c, A, b, C, d)
    nr = norms(c, A, C)
    if cfg.get('center_first'):
        x = P.center
        r = P.radius
    else:
        r = P.radius
        x = P.center
    y, rho = c.vec('y', n), c.real('rho')
    def fits(y, rho):
        xs = [c.le(A[i].dot(y) + nr[i] * rho, b[i]) for i in range(m)]
        if C is not None:
            xs.append(c.eq(C.dot(y), d))
        return c.and_(*xs)
    if r is None:
        c.check(x is None, 'no centre without a radius')
        # balls can grow without limit: some direction increases every slack
        c.check(cfg['grows'], 'the radius is None only if balls of any size fit')
        return
    c.check(not cfg['grows'], 'the radius is None if balls of any size fit')
    c.check(c.and_(*[c.le(A[i].dot(x) + nr[i] * r, b[i] + TOL) for i in range(m)]), 'the ball of radius `radius` around `center` satisfies every inequality')
    if C is not None:
        c.check(c.eq(C.dot(x), d), 'the centre satisfies the equalities')
    c.check(c.implies(fits(y, rho), c.le(rho, r + TOL)), 'no ball in the set is larger')
    feas = c.feasible(A, b, C, d)
    c.check(c.iff(c.ge(r, 0), feas) if c.symbolic else True, 'the radius is negative iff the set is empty')
    if not c.symbolic:
        c.check(c.implies(c.lt(r, -1e-4), c.not_(feas)), 'the radius is negative iff the set is empty')
        c.check(c.implies(c.gt(r, 1e-4), feas), 'the radius is negative iff the set is empty')
    c.check(c.eq(P.radius, r), 'asking again gives the same radius')


def grows(cfg):
    """z3: is there a direction along which every slack of the ball problem grows?"""
    from ..z3load import z3
    n = cfg['n']
    A = fam.A[n][cfg['a']]
    C = fam.C[n][cfg['c']] if cfg.get('c') else []
    r = [z3.Real('r%d' % i) for i in range(n)]
    s = z3.Solver()
    for row in A:
        v = [Fraction(t) for t in row]
        for q in C:
            k = Fraction(sum(a * b for a, b in zip(row, q)), sum(a * a for a in q))
            v = [a - k * b for a, b in zip(v, q)]
        if all(t == 0 for t in v):
            continue
        s.add(z3.Sum([a * x for a, x in zip(row, r)]) < 0)
    for row in C:
        s.add(z3.Sum([a * x for a, x in zip(row, r)]) == 0)
    return s.check() == z3.sat


def history(c):
    """radius and centre before and after the polyhedron is constrained further, normalized, and of another one built from the same arrays."""
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    m, n = A.shape
    A0, b0 = A.copy(), b.copy()
    P = c.geom.Polyhedron(A0, b0, C, d)
    Q = c.geom.Polyhedron(A0, b0, C, d)
    y, rho = c.vec('y', n), c.real('rho')

    def ask(P, A, b, what):
        nr = norms(c, A, C)
        r, x = (P.radius, P.center) if not cfg.get('center_first') else reversed((P.center, P.radius))
        c.check(c.and_(*[c.le(A[i].dot(x) + nr[i] * r, b[i] + TOL) for i in range(A.shape[0])]), 'the ball of radius `radius` around `center` satisfies every inequality' + what)
        fits = [c.le(A[i].dot(y) + nr[i] * rho, b[i]) for i in range(A.shape[0])]
        if C is not None:
            c.check(c.eq(C.dot(x), d), 'the centre satisfies the equalities' + what)
            fits.append(c.eq(C.dot(y), d))
        c.check(c.implies(c.and_(*fits), c.le(rho, r + TOL)), 'no ball in the set is larger' + what)
        return r, x
    r1, x1 = ask(P, A, b, '')
    keep = x1.copy()
    a, h = c.arr([cfg['cut']]), c.vec('h', 1)
    c.box(h, -50, 50)
    P.add_inequality(a, h)
    ask(P, c.np.vstack((A, a)), c.np.concatenate((b, h)), ' (after a constraint was added)')
    c.check(c.eq(x1, keep), 'a centre handed out earlier is left alone')
    r2, x2 = ask(Q, A, b, ' (of another polyhedron)')
    c.check(c.eq(r2, r1), 'equal polyhedra have equal radii')
    Q.normalize()
    c.check(c.eq(Q.radius, r1), 'normalizing leaves the radius alone')
    c.check(c.and_(c.eq(A0, A), c.eq(b0, b)), 'asking leaves the arrays given alone')


def hist(name, cut, **kw):
    return dict(fam.combos([name])[0], cut=cut, **kw)


_h = [hist('1:seg', [2]), hist('1:seg/0', [-2], int=True), hist('2:tri', [0, 3]), hist('2:box/0,1', [3, 4], int=True), hist('2:strip', [4, -3]), hist('2:quad/0', [-3, -4]), hist('2:gon/0,9', [1, 0]), hist('2:box:a/0', [1, 0]),
      hist('3:box/0', [1, 2, 2]), hist('3:tet/3', [2, -1, 2], center_first=True), hist('4:box/0', [1, 1, 1, 1])]
_b = fam.combos(['2:gon/0,3,8', '2:many/0,1,4', '2:many:a/4,12', '3:oct/0,3', '3:cut/6,7', '3:box:c/1', '4:cut/8,9', '4:prism:a/0', '4:simplex/1,4', '4:box:two/0', '5:simplex/5', '5:box/0,4'])
_s = fam.combos(['1:seg/0@5000', '2:box/0,2@5000', '2:gon/0,8@5000', '2:tri:a/0@3000', '3:box/0@9000'])
_b += fam.combos(['1:seg/0', '2:box/0,1', '2:tri:a/0', '2:box/-', '3:box/0', '2:quad/0'], int=True)
_c = fam.combos(['1:seg', '1:seg3', '1:ray', '2:box', '2:tri', '2:cone', '2:half', '2:strip', '2:quad', '2:wedge', '2:tri:a', '2:box:b', '2:strip:c', '2:half:a', '2:cone:b',
                 '3:slab', '3:tet:c', '3:cone', '2:pent', '2:dup', '3:cone:two', '3:tet', '3:box:two', '3:box', '1:none', '2:none', '3:none', '2:none:a', '3:none:a'])
for _x in _c + _b + _s:
    _x['grows'] = grows(_x)
# pympc's own LP solver executed too, not its contract
_r = [dict(x, real=True) for x in _c if (x['n'], x['a'], x['c']) not in ((3, 'tet', 'c'), (3, 'box', 'two'))]
# large data, compared to nine digits: an absolute tolerance must not grow with the data
HARNESSES = [
    Harness('ball', ball, _s, tol=1e-9, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('history', history, _h, witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('ball', ball, _b, witnesses=2, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('ball', ball, _r, witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('ball', ball, _c + [dict(x, center_first=True) for x in _c[:6] + _c[10:14]], witnesses=4, witness_margins=[0.125, 0.01], max_paths=3000),
]
