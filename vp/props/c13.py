"""Cached answers describe the current constraints."""
from itertools import combinations
from ..runner import Harness
from .geo import poly, in_set, member, TOL
from .c12 import norms
from .c15 import near
from . import fam

BOUNDS = 'n <= 2, up to 5 initial inequalities (n <= 4, 15 inequalities with constant right-hand sides, integer arrays), histories of up to 3 modifications with all queries asked before, between and after them; right-hand sides free reals, normals from vp/props/fam.py'
OUTSIDE = 'sets that are empty or flat up to 1e-4 where the code uses tolerances; normals outside the families; writing to the attributes directly'
ASSUMPTIONS = ['scipy.spatial.HalfspaceIntersection returns the basic feasible solutions of the halfspaces it is given', 'the LP and QP solvers meet their contracts (C17, C18)']

QUERIES = ('empty', 'bounded', 'radius', 'center', 'vertices')


def ask(P, qs):
    out = {}
    for q in qs:
        out[q] = getattr(P, q)
    return out


# modifications: (name, apply(c, P, i) -> changes the polyhedron, added rows)

def m_ineq(c, P, i):
    P.add_inequality(c.arr([[3, 4]] if c.cfg['n'] == 2 else [[2]]), c.vec('m%d' % i, 1))


def m_ineq3(c, P, i):
    P.add_inequality(c.arr([[2, -1, 2]]), c.vec('m%d' % i, 1))


def m_eq3(c, P, i):
    P.add_equality(c.arr([[0, 3, 4]]), c.vec('m%d' % i, 1))


def m_eq(c, P, i):
    P.add_equality(c.arr([[3, 4]] if c.cfg['n'] == 2 else [[2]]), c.vec('m%d' % i, 1))


def m_lb(c, P, i):
    P.add_lower_bound(c.vec('m%d' % i, 1), [0])


def m_ub(c, P, i):
    P.add_upper_bound(c.vec('m%d' % i, 1), [c.cfg['n'] - 1])


def m_bounds(c, P, i):
    n = c.cfg['n']
    P.add_bounds(c.vec('m%dl' % i, n), c.vec('m%du' % i, n))


def m_sym(c, P, i):
    import sympy as sp
    x = sp.Matrix([sp.Symbol('x%d' % k) for k in range(c.cfg['n'])])
    k, _ = c.sp('m%d' % i)
    P.add_symbolic_inequality(x, sp.Matrix([x[0] - k]))


def m_symeq(c, P, i):
    import sympy as sp
    x = sp.Matrix([sp.Symbol('x%d' % k) for k in range(c.cfg['n'])])
    k, _ = c.sp('m%d' % i)
    P.add_symbolic_equality(x, sp.Matrix([x[0] - k]))


def m_two(c, P, i):
    n = c.cfg['n']
    P.add_inequality(c.arr(([[3, 4, 0], [0, 0, 1], [1, 0, 0]])[:2])[:, :n] if n > 1 else c.arr([[2], [3]]), c.vec('m%d' % i, 2))


def m_none(c, P, i):
    '''no row at all'''
    n = c.cfg['n']
    P.add_inequality(c.arr([], (0, n)), c.arr([], (0,)))
    P.add_equality(c.arr([], (0, n)), c.arr([], (0,)))


def m_norm(c, P, i):
    P.normalize()


def m_red(c, P, i):
    if c.call(P.remove_redundant_inequalities).raised(ValueError):
        c.skip()


MODS = {'none': m_none, 'two': m_two, 'ineq': m_ineq, 'ineq3': m_ineq3, 'eq3': m_eq3, 'eq': m_eq, 'lb': m_lb, 'ub': m_ub, 'bounds': m_bounds, 'sym': m_sym, 'symeq': m_symeq, 'norm': m_norm, 'red': m_red}


def robust(c, P):
    """the current set is either clearly empty or has an interior (within its equalities)."""
    nr = c.arr(norms(c, P.A, P.C if P.C.shape[0] else None))
    C, d = (P.C, P.d) if P.C.shape[0] else (None, None)
    c.assume(c.or_(c.not_(c.feasible(P.A, P.b + 1e-3, C, d)), c.feasible(P.A, P.b - 1e-3 * nr, C, d)))


def same(c, got, want, P, tag):
    for q in ('empty', 'bounded'):
        if q in got:
            c.check(bool(got[q]) == bool(want[q]), q + ' is that of the current constraints' + tag)
    if 'radius' in got:
        r, s = got['radius'], want['radius']
        c.check((r is None) == (s is None), 'radius is None iff it is for the current constraints' + tag)
        if r is not None:
            c.check(c.and_(c.le(r - s, TOL), c.ge(r - s, -TOL)), 'radius is that of the current constraints' + tag)
    if 'center' in got:
        x, r = got['center'], want['radius']
        c.check((x is None) == (want['center'] is None), 'center is None iff it is for the current constraints' + tag)
        if x is not None:
            nr = norms(c, P.A, P.C if P.C.shape[0] else None)
            c.check(c.and_(*[c.le(P.A[i].dot(x) + nr[i] * r, P.b[i] + 2 * TOL) for i in range(P.A.shape[0])]), 'center is that of the current constraints' + tag)
            if P.C.shape[0]:
                c.check(c.and_(c.le(P.C.dot(x) - P.d, TOL), c.ge(P.C.dot(x) - P.d, -TOL)), 'center satisfies the current equalities' + tag)
    if 'vertices' in got:
        V, W = got['vertices'], want['vertices']
        c.check((V is None) == (W is None), 'vertices are None iff they are for the current constraints' + tag)
        if V is not None:
            V, W = [v for v in V], [w for w in W]
            c.check('red' in c.cfg.get('mods', ()) or len(V) == len(W), 'as many vertices as the current constraints have' + tag)
            for v in V:
                c.check(c.or_(*[near(c, v, w) for w in W]), 'vertices are those of the current constraints' + tag)
            for w in W:
                c.check(c.or_(*[near(c, v, w) for v in V]), 'vertices are those of the current constraints' + tag)


def fresh(c, P):
    return c.geom.Polyhedron(P.A.copy(), P.b.copy(), P.C.copy(), P.d.copy())


def queries(cfg, eq):
    qs = cfg.get('q') or QUERIES
    # radius, centre and vertices need a nullspace of the equalities
    return [q for q in qs if not (eq and cfg['n'] == 1 and q in ('radius', 'center', 'vertices'))]


def history(c):
    c.opts(approx=True)
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    P = poly(c, A, b, C, d)
    robust(c, P)
    if cfg.get('prime', True):
        ask(P, queries(cfg, C is not None))
    for i, m in enumerate(cfg['mods']):
        MODS[m](c, P, i)
        robust(c, P)
        last = i == len(cfg['mods']) - 1
        if last or cfg.get('between'):
            qs = queries(cfg, P.C.shape[0] > 0)
            want = ask(fresh(c, P), queries(dict(n=cfg['n']), P.C.shape[0] > 0))
            same(c, ask(P, qs), want, P, '')
            if last:
                same(c, ask(P, reversed(qs)), want, P, ' (asked again)')


def relatives(c):
    """copies, intersections and products do not inherit answers."""
    c.opts(approx=True)
    cfg = c.cfg
    A, b, C, d = fam.build(c, cfg)
    P = poly(c, A, b, C, d)
    A2, b2, C2, d2 = fam.build(c, dict(n=cfg['n'], a=cfg['a2'], c=cfg.get('c2')), '2')
    Q = poly(c, A2, b2, C2, d2)
    robust(c, P)
    robust(c, Q)
    qs = queries(cfg, False)
    ask(P, qs)
    ask(Q, qs)
    if cfg['op'] == 'inter':
        R = P.intersection(Q)
    elif cfg['op'] == 'prod':
        R = P.cartesian_product(Q)
    elif cfg['op'] == 'copy':
        from copy import copy
        R = copy(P)
        R.add_inequality(A2.copy(), b2.copy())
    robust(c, R)
    same(c, ask(R, qs), ask(fresh(c, R), QUERIES), R, ' (derived set)')
    c.check(c.and_(c.eq(P.A, A), c.eq(P.b, b), c.eq(Q.A, A2), c.eq(Q.b, b2)), 'the operands keep their constraints')
    same(c, ask(P, qs), ask(fresh(c, P), QUERIES), P, ' (operand)')
    same(c, ask(Q, qs), ask(fresh(c, Q), QUERIES), Q, ' (operand)')


def _h(s, **k):
    n, a, mods = s.split(' ')
    return dict(fam.combos(['%s:%s' % (n, a)])[0], mods=mods.split('+'), **k)


_one = [_h('1 %s %s' % (a, m)) for a, m in [('seg', 'ineq'), ('seg', 'lb'), ('seg', 'ub'), ('seg', 'bounds'), ('seg', 'sym'), ('seg', 'red'), ('seg3', 'red'), ('seg', 'norm'),
                                            ('ray', 'ub'), ('seg', 'eq'), ('seg', 'symeq'), ('ray', 'ineq')]]
_two = [_h('2 %s %s' % (a, m)) for a, m in [('tri', 'ineq'), ('tri', 'lb'), ('tri', 'ub'), ('tri', 'norm'), ('quad', 'red'), ('tri', 'eq'), ('tri', 'sym'), ('tri', 'symeq'), ('cone', 'ub'), ('cone', 'ineq'), ('strip', 'lb'),
                                            ('tri', 'bounds'), ('half', 'ineq'), ('box', 'eq')]]
_seq = [_h('1 seg lb+ub', between=True), _h('1 ray ub+red', between=True), _h('2 tri norm+ub', between=True), _h('2 cone ub+norm', between=True), _h('2 tri ub+red', between=True),
        _h('2 tri eq+lb', between=True), _h('1 seg3 red+ineq+norm', between=True), _h('2 cone ineq+eq', between=True), _h('2 half ub+lb+norm')]
_more = [_h('2 tri/0 ub+none+ineq', between=True), _h('2 box/- ub', int=True), _h('2 box/0 norm+ub', int=True, between=True), _h('2 gon/- ineq'), _h('2 many/- ub'), _h('3 box/- ub'), _h('3 tet/- ineq3+norm'), _h('3 tet/- eq3'),
         _h('2 tri/- two', between=True), _h('1 seg/- two+red', between=True), _h('3 cone/- ub+lb', between=True), _h('2 box:b/- ub+norm', between=True), _h('1 seg ub+ub+ub', between=True), _h('2 tri/- ub+lb+ineq+norm', between=True),
         _h('2 gon/- eq'), _h('2 pent/- red+ub+red+norm', between=True), _h('4 simplex/- ub')]
_q = [_h('2 tri ub', q=[x]) for x in QUERIES] + [_h('2 cone ub', q=[x, y]) for x, y in combinations(QUERIES, 2)]
HARNESSES = [
    Harness('history', history, _more, witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('history', history, _one + _two[:11] + _q[:5] + _seq[:6] + _two[11:] + _seq[6:] + _q[5:], witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
    Harness('relatives', relatives, [dict(n=1, a='seg', a2='seg', op='prod'), dict(n=1, a='seg', a2='ray', op='prod', q=('empty', 'bounded')), dict(n=1, a='seg', a2='seg', op='inter'), dict(n=1, a='seg', a2='ray', op='copy'), dict(n=2, a='tri', a2='half', op='inter'), dict(n=2, a='cone', a2='half', op='inter'),
                                     dict(n=2, a='tri', a2='half', op='copy'), dict(n=2, a='strip', a2='strip', op='inter'), dict(n=2, a='tri', a2='half', c2='b', op='inter'), dict(n=2, a='box', a2='half', op='inter'),
                                     dict(n=2, a='wedge', a2='cone', op="copy")], witnesses=3, witness_margins=[0.125, 0.01], max_paths=3000),
]
