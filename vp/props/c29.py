"""Well-posedness of PWA systems."""
from fractions import Fraction
from ..runner import Harness
from .geo import poly, in_set
from . import fam
from .c12 import norms

BOUNDS = '2 to 4 modes with free right-hand sides (5 to 9, in thorough 12, if all but one or two are constant parallel strips), domains in the space of state and input, dimension 2 to 5 (from 3 on some right-hand sides free), the same question asked twice, integer arrays, given by the families in vp/props/fam.py with free right-hand sides; overlapping, touching, empty and unbounded domains, with and without an equality'
OUTSIDE = 'equalities that are dependent in an intersection (refused with a ValueError); overlaps with a radius in (0, 1e-6]; other normals; inequalities that are constant on the equalities'
ASSUMPTIONS = ['the LP solver meets its contract (C17)']


def well(c):
    cfg = c.cfg
    doms = []
    for i, (a, e) in enumerate(cfg['doms']):
        if i not in cfg.get('free', range(9)):
            # parallel strips that do not meet
            mk = c.ints if cfg.get('int') else c.arr
            doms.append((mk(fam.A[2]['strip']), mk([10 * i + 5, -20 * i]), None, None))
            continue
        doms.append(fam.build(c, dict(n=cfg['n'], a=a, c=e, int=cfg.get('int'), **({'free': cfg['rhs'][i]} if 'rhs' in cfg else {})), tag=str(i)))
    n = cfg['n']
    nu = 1
    S = [c.dts.AffineSystem(c.np.eye(n - 1), c.np.ones((n - 1, nu)), c.np.zeros(n - 1)) for _ in doms]
    D = [poly(c, *t) for t in doms]
    P = c.dts.PieceWiseAffineSystem(S, D)
    y, rho = c.vec('y', n), c.real('rho')
    r = P.is_well_posed()
    if cfg.get('again'):
        r2 = P.is_well_posed()
        c.check(c.truth(c.cond(r)) == c.truth(c.cond(r2)), 'asking again gives the same answer')
        for t, Dm in zip(doms, P.domains):
            c.check(c.and_(c.eq(Dm.A, t[0]), c.eq(Dm.b, t[1])), 'the domains are left alone')
    if c.truth(c.cond(r)):
        for i in range(len(doms)):
            for j in range(i):
                c.check(c.implies(ball(c, doms, i, j, y, rho), c.le(rho, 1e-6)), 'well posed: no two domains share a ball')
        return
    c.check(c.or_(*[overlap(c, doms, k, l) for k in range(len(doms)) for l in range(k)]), 'not well posed: two domains overlap')


def ball(c, doms, i, j, y, rho):
    """the ball of radius rho around y (in the affine hull of the equalities) lies in both domains."""
    A = c.np.vstack((doms[i][0], doms[j][0]))
    b = c.np.concatenate((doms[i][1], doms[j][1]))
    C = [t[2] for t in (doms[i], doms[j]) if t[2] is not None]
    d = [t[3] for t in (doms[i], doms[j]) if t[3] is not None]
    C, d = (c.np.vstack(C), c.np.concatenate(d)) if C else (None, None)
    nr = norms(c, A, C)
    fits = c.and_(*[c.le(A[k].dot(y) + nr[k] * rho, b[k]) for k in range(A.shape[0])])
    return fits if C is None else c.and_(fits, c.eq(C.dot(y), d))


def overlap(c, doms, k, l):
    """the interiors (relative to the equalities) of two domains meet: feasibility with a small margin."""
    A = c.np.vstack((doms[k][0], doms[l][0]))
    b = c.np.concatenate((doms[k][1], doms[l][1]))
    C = [t[2] for t in (doms[k], doms[l]) if t[2] is not None]
    d = [t[3] for t in (doms[k], doms[l]) if t[3] is not None]
    C, d = (c.np.vstack(C), c.np.concatenate(d)) if C else (None, None)
    return c.feasible(A, b - 1e-9, C, d)


def same(c):
    """a system with one mode, and with a repeated domain."""
    A, b, C, d = fam.build(c, dict(n=2, a=c.cfg['a'], c=None))
    S = c.dts.AffineSystem(c.np.eye(1), c.np.ones((1, 1)), c.np.zeros(1))
    c.check(c.dts.PieceWiseAffineSystem([S], [poly(c, A, b)]).is_well_posed(), 'one mode is well posed')
    r = c.dts.PieceWiseAffineSystem([S, S], [poly(c, A, b), poly(c, A, b)]).is_well_posed()
    y = c.vec('y', 2)
    inside = c.le(A.dot(y), b - 1e-3)
    c.check(c.implies(c.cond(r), c.not_(inside)), 'a repeated domain with interior points is not well posed')


_2 = [['box', 'tri'], ['half', 'strip'], ['box', 'cone'], ['tri', 'half'], ['strip', 'wedge'], ['half', 'cone'], ['quad', 'half']]
_c = [dict(n=2, doms=[(a, None) for a in x]) for x in _2]
_c += [dict(n=2, doms=[('half', None), ('strip', None), ('cone', None)]), dict(n=2, doms=[('tri', None), ('half', None), ('half', None)])]
_c += [dict(n=2, doms=[('strip', 'b'), ('half', None)]), dict(n=2, doms=[('box', None), ('half', 'a')]), dict(n=2, doms=[('half', None), ('quad', 'b'), ('strip', None)])]
_c += [dict(n=2, doms=[('half', None), ('half', None), ('strip', None), ('cone', None)]), dict(n=3, doms=[('tet', None), ('slab', None)]), dict(n=3, doms=[('box', 'c'), ('box', None)])]
_c += [dict(n=2, doms=[('strip', None)] * 4),
       dict(n=2, doms=[('strip', None)] * 6, free=(1, 5)), dict(n=2, doms=[('strip', None)] * 5, free=(0, 4)), dict(n=2, doms=[('strip', None)] * 7, free=(3,))]
_c = [dict(n=2, doms=[('box', None), ('tri', None)], again=True), dict(n=2, doms=[('strip', None)] * 9, free=(2, 7), int=True), dict(n=3, doms=[('box', None), ('cut', None)], rhs=[[0, 3], [2]]), dict(n=4, doms=[('box', None), ('simplex', None), ('prism', None)], rhs=[[1], [4], [0]]),
      dict(n=5, doms=[('box', None), ('simplex', None)], rhs=[[0], [5]]), dict(n=2, doms=[('gon', None), ('many', None)], rhs=[[8], [1]]), dict(n=2, doms=[('box', None)] * 3, rhs=[[0], [1], [3]], int=True)] + _c + [dict(n=2, doms=[('strip', None)] * 12, free=(0, 11))]
HARNESSES = [
    Harness('well', well, _c, quick=-1, witnesses=4, witness_margins=[Fraction(1, 8), Fraction(1, 100)]),
    Harness('same', same, [dict(a=a) for a in ('tri', 'half', 'strip')], witnesses=3),
]
