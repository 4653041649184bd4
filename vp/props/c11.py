"""Set inclusion."""
from ..runner import Harness
from .geo import member, in_set, poly, TOL
from . import fam

BOUNDS = 'n <= 3, up to 5 inequalities and one or two equalities in each set (n <= 5, 15 inequalities with some of the right-hand sides constant; integer arrays; sets constrained and asked again); right-hand sides of both sets free reals (empty, lower-dimensional and unbounded sets included), normals from the families in vp/props/fam.py'
OUTSIDE = 'inclusions that fail by less than 1e-6; normals outside the families'


def included(c):
    x, y = dict(c.cfg['p']), dict(c.cfg['q'])
    A1, b1, C1, d1 = fam.build(c, x, '1')
    A2, b2, C2, d2 = fam.build(c, y, '2')
    P, Q = poly(c, A1, b1, C1, d1), poly(c, A2, b2, C2, d2)
    feas = c.feasible(A1, b1, C1, d1)
    r = P.is_included_in(Q)
    z = c.vec('z', x['n'])
    if c.truth(c.cond(r)):
        c.check(c.implies(in_set(c, A1, b1, C1, d1, z), in_set(c, A2, b2, C2, d2, z, TOL)), 'if included, every point of the first set is in the second')
        if c.truth(feas):
            rows = [(A2[i], b2[i]) for i in range(A2.shape[0])]
            c.check(c.and_(*[c.sup(a, A1, b1, C1, d1).le(h + TOL) for a, h in rows]), 'if included, no facet of the second set is exceeded')
    else:
        c.check(feas, 'the empty set is included in any set')
        if not c.truth(feas):
            return
        rows = [(A2[i], b2[i]) for i in range(A2.shape[0])]
        if C2 is not None:
            rows += [(C2[i], d2[i]) for i in range(C2.shape[0])] + [(-C2[i], -d2[i]) for i in range(C2.shape[0])]
        c.check(c.or_(*[c.sup(a, A1, b1, C1, d1).gt(h) for a, h in rows]), 'if not included, some point of the first set is outside the second')
    c.check(c.and_(c.eq(P.A, A1), c.eq(P.b, b1), c.eq(Q.A, A2), c.eq(Q.b, b2)), 'the test does not change the sets')


def own(c):
    """reflexivity and inclusion in a relaxation of itself."""
    A, b, C, d = fam.build(c, c.cfg)
    t = c.vec('t', A.shape[0])
    c.assume(c.ge(t, 0))
    P, Q = poly(c, A, b, C, d), poly(c, A, b + t, C, d)
    c.check(c.cond(P.is_included_in(Q)), 'a set is included in any relaxation of its own inequalities')


def history(c):
    """the answers of sets that are constrained in between, in both directions and with a shared operand."""
    x, y = dict(c.cfg['p']), dict(c.cfg['q'])
    A1, b1, C1, d1 = fam.build(c, x, '1')
    A2, b2, C2, d2 = fam.build(c, y, '2')
    P, Q = poly(c, A1, b1, C1, d1), poly(c, A2, b2, C2, d2)

    def ask(P, Q, D1, D2, what):
        A1, b1, C1, d1 = D1
        A2, b2, C2, d2 = D2
        feas = c.feasible(A1, b1, C1, d1)
        rows = [(A2[i], b2[i]) for i in range(A2.shape[0])]
        if C2 is not None:
            rows += [(C2[i], d2[i]) for i in range(C2.shape[0])] + [(-C2[i], -d2[i]) for i in range(C2.shape[0])]
        r = P.is_included_in(Q)
        if c.truth(c.cond(r)):
            if c.truth(feas):
                c.check(c.and_(*[c.sup(a, A1, b1, C1, d1).le(h + TOL) for a, h in rows]), 'if included, no constraint of the second set is exceeded' + what)
        else:
            c.check(feas, 'the empty set is included in any set' + what)
            if c.truth(feas):
                c.check(c.or_(*[c.sup(a, A1, b1, C1, d1).gt(h) for a, h in rows]), 'if not included, some point of the first set is outside the second' + what)
    D1, D2 = (A1, b1, C1, d1), (A2, b2, C2, d2)
    ask(P, Q, D1, D2, '')
    if c.cfg.get('both'):
        ask(Q, P, D2, D1, ' (operands exchanged)')
    a, h = c.arr([c.cfg['cut']]), c.vec('h', 1)
    c.box(h, -50, 50)
    k = c.cfg.get('who', 1)
    (P if k == 1 else Q).add_inequality(a, h)
    if k == 1:
        D1 = (c.np.vstack((A1, a)), c.np.concatenate((b1, h)), C1, d1)
    else:
        D2 = (c.np.vstack((A2, a)), c.np.concatenate((b2, h)), C2, d2)
    ask(P, Q, D1, D2, ' (after a constraint was added)')
    c.check(c.and_(c.eq(P.A, D1[0]), c.eq(P.b, D1[1]), c.eq(Q.A, D2[0]), c.eq(Q.b, D2[1])), 'the test does not change the sets')


def cfg(p, q, **kw):
    return dict(p=fam.combos([p], **kw)[0], q=fam.combos([q], **kw)[0])


def hist(p, q, cut, **kw):
    return dict(cfg(p, q, int=kw.pop('int', False)), cut=cut, **kw)


_h = [hist('1:seg', '1:seg', [2], both=True), hist('1:ray', '1:seg', [1]), hist('2:tri/0', '2:box/0,1', [1, 1]), hist('2:box/0', '2:half', [3, 4], who=2, both=True), hist('2:cone/0', '2:half', [0, 1]),
      hist('2:box:b/0,2', '2:box/0', [1, 0], int=True), hist('2:gon/0,8', '2:box/-', [1, 1]), hist('2:gon/3', '2:gon/-', [5, 12], who=2), hist('3:box/0', '3:tet/3', [1, 0, 0], int=True), hist('2:strip', '2:strip', [4, 3]),
      hist('3:oct/0', '3:box/4', [0, 0, 1])]
_b = [cfg('2:gon/0,4', '2:gon/1,4'), cfg('2:gon/-', '2:gon'), cfg('2:many/0,1', '2:gon/-'), cfg('3:oct/0,3', '3:box/0'), cfg('3:cut/6,7', '3:oct/0'), cfg('3:cut:a/6', '3:cut:a/7'), cfg('4:cut/8,0', '4:box/0'),
      cfg('4:box/0', '4:cut/8,9'), cfg('4:simplex/4', '4:box/0,2'), cfg('4:prism/0', '4:box/0'), cfg('5:simplex/5', '5:box/0,2'), cfg('4:box:two/0,2', '4:box:a/-'), cfg('5:box/0', '5:simplex/5'),
      cfg('1:seg/0', '1:seg3/1', int=True), cfg('2:box/0,3', '2:pent/4', int=True), cfg('2:tri:a/0', '2:box:a/1', int=True), cfg('2:box/-', '2:pent/4', int=True), cfg('2:box/0', '2:pent/-', int=True),
      cfg('2:half', '2:half:a'), cfg('3:box/0', '3:box:two/0'), cfg('2:gon/0', '2:half:a'),
      cfg('1:none', '1:seg'), cfg('1:seg', '1:none'), cfg('2:none', '2:none'), cfg('2:none:a', '2:box'), cfg('2:box', '2:none:a'), cfg('2:none:a', '2:none:a'), cfg('2:none', '2:none:b'), cfg('3:none:two', '3:slab')]
_s = [cfg('1:seg/0@5000', '1:seg3/0@5000'), cfg('2:box/0@5000', '2:gon/0@5000'), cfg('2:gon/0,8@1000', '2:box/0,2@5000'), cfg('2:pent/4@4000', '2:box/0@4000'), cfg('3:box/0@9000', '3:oct/0@5000'), cfg('2:box:b/0@3000', '2:tri/0@3000'),
      cfg('2:box/0@5000', '2:half/0@2000')]


_p = [('1:seg', '1:seg'), ('1:seg3', '1:ray'), ('1:ray', '1:seg'), ('1:seg', '1:zero'), ('2:tri', '2:box'), ('2:box', '2:half'), ('2:half', '2:strip'), ('2:cone', '2:half'),
      ('2:strip', '2:half'), ('2:box', '2:half:a'), ('2:tri:a', '2:box'), ('2:strip:c', '2:tri'), ('2:box:b', '2:cone:b'), ('2:cone', '2:box'), ('2:half:a', '2:half:a'),
      ('3:tet', '3:slab'), ('3:cone:two', '3:slab'), ('2:quad', '2:tri'), ('2:pent', '2:tri'), ('3:tet:a', '3:cone'), ('2:tri', '2:quad'), ('3:box', '3:slab:b')]
# pympc's own LP solver executed too, not its contract
_r = [('1:seg', '1:seg'), ('1:seg3', '1:ray'), ('1:ray', '1:seg'), ('1:seg', '1:zero'), ('2:half', '2:strip'), ('2:cone', '2:half'), ('2:strip', '2:half'), ('2:box', '2:half'), ('2:tri', '2:box'),
      ('2:box', '2:half:a'), ('2:tri:a', '2:box'), ('2:strip:c', '2:tri')]
_r[8:8] = [('2:none', '2:half'), ('2:none:a', '2:half'), ('1:seg', '1:none')]
# large data, compared to nine digits: an absolute tolerance must not grow with the data
HARNESSES = [
    Harness('included', included, _s, tol=1e-9, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('history', history, _h, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('included', included, _b, witnesses=3, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('included', included, [dict(cfg(*t), real=True) for t in _r], quick=11, witnesses=4, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('included', included, [cfg(*t) for t in _p], witnesses=4, witness_margins=[0.125, 0.01], max_paths=4000),
    Harness('own', own, fam.combos(['1:seg', '1:ray', '2:tri', '2:cone', '2:strip', '2:tri:a', '2:half:c', '2:box', '3:tet', '3:cone:two']), witnesses=3,
            witness_margins=[0.125, 0.01]),
]
