"""The built-in LP and QP solvers executed symbolically down to scipy's nonnegative least squares."""
from fractions import Fraction
from ..runner import Harness
from . import fam, ocp

TOL = 1e-6

# (f, A, C)
LPS = {
    'a': ([1], [[-1], [2]], None),
    'b': ([-2], [[3]], None),
    'c': ([1], [[1], [-1], [-2]], None),
    'z': ([0], [[1], [-1]], None),
    'u': ([1], [[1]], None),
    'tri': ([1, 2], [[-1, 0], [0, -1], [1, 1]], None),
    'box': ([1, -1], [[1, 0], [-1, 0], [0, 1], [0, -1]], None),
    'cone': ([1, 1], [[-2, 1], [1, -2]], None),
    'esc': ([-1, 0], [[0, 1], [-1, 0]], None),
    'par': ([1, 1], [[1, 1], [-1, -1], [1, 0]], None),
    'eqa': ([1], [[-1]], [[2]]),
    'eqb': ([1, 2], [[-1, 0], [0, -1]], [[1, 1]]),
    'eqc': ([1, -1], [[-1, 0], [1, 1]], [[1, 2]]),
    'eqd': ([2, 1], [[0, -1]], [[1, -1]]),
    'eqz': ([1, 1], [[-1, 0]], [[0, 1]]),
    'eq2': ([1, 0, 2], [[0, -1, 0], [1, 0, 0]], [[1, 1, 0], [0, 1, -1]]),
    'none1': ([0], [], None), 'none2': ([2, -1], [], None), 'noneeq': ([3, 4], [], [[6, 8]]), 'noneeq2': ([1, 1], [], [[1, 2]]), 'nonept': ([1, 1], [], [[1, 2], [0, 3]]),
    'noineq': ([3], [[0]], [[1]]),
    'tet': ([1, 2, 3], [[-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 1]], None),
    'dup': ([1, 0], [[-1, 0], [-2, 0], [0, 1], [0, -1]], None),
}


BASE = {}


def data(c, spec, fsym=False, tag=''):
    f, A, C = spec[-3:]
    mk = c.ints if c.cfg.get('int') else c.arr
    A, n = (mk(A), len(A[0])) if A else (c.np.zeros((0, len(f or C[0]))), len(f or C[0]))
    f = c.vec('f' + tag, n) if fsym else mk(f)
    b = c.vec('b' + tag, A.shape[0])
    C = None if C is None else mk(C)
    d = None if C is None else c.vec('d' + tag, C.shape[0])
    if 'free' in c.cfg:
        base = BASE[c.cfg['p']]
        for i in range(A.shape[0]):
            if i not in c.cfg['free']:
                b[i] = base[0][i]
            else:
                c.box(b[i], -50, 50)
        if d is not None:
            d = c.arr(base[1])
        if fsym:
            for i in range(n):
                if i not in c.cfg.get('ffree', ()):
                    f[i] = base[2][i]
                else:
                    c.box(f[i], -50, 50)
        if c.cfg.get('int') and not c.cfg['free']:
            b = c.ints(base[0][:A.shape[0]])
            if fsym and not c.cfg.get('ffree', ()):
                f = c.ints(base[2])
    return f, A, b, C, d


def none(c, sol, C):
    c.check(all(sol[k] is None for k in ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')), 'without a solution every field is None')


def certificate(c, sol, g, A, b, C, d, value):
    """feasibility, stationarity (g = gradient at the minimiser), complementarity, active set."""
    m = A.shape[0]
    x, y, mu = sol['argmin'], sol['multiplier_inequality'], sol['multiplier_equality']
    c.check(x is not None and y is not None and sol['active_set'] is not None, 'with a solution every field is set')
    c.check(tuple(x.shape) == (A.shape[1],) and tuple(y.shape) == (m,), 'one entry per variable and multiplier')
    c.check(c.le(A.dot(x), b + (TOL if not c.symbolic else 0)), 'the minimiser satisfies the inequalities')
    c.check(c.ge(y, -TOL if not c.symbolic else 0), 'the multipliers of the inequalities are non-negative')
    L = g + A.T.dot(y)
    if C is not None and C.shape[0]:
        c.check(c.eq(C.dot(x), d), 'the minimiser satisfies the equalities')
        c.check(mu is not None and tuple(mu.shape) == (C.shape[0],), 'one multiplier per equality')
        L = L + C.T.dot(mu)
    else:
        c.check(mu is None, 'no multiplier without equalities')
    c.check(c.eq(L, L * 0), 'the gradient of the Lagrangian vanishes')
    if value is not None:
        c.check(c.eq(sol['min'], value), 'the value is the cost of the minimiser')
    act = [int(i) for i in sol['active_set']]
    c.check(act == sorted(set(act)) and all(0 <= i < m for i in act), 'the active set is a sorted list of rows')
    for i in range(m):
        c.check(c.gt(y[i], 0) if i in act else c.le(y[i], TOL), 'the active set has the rows with positive multipliers')
    return x, y, mu


def lp(c):
    f, A, b, C, d = data(c, LPS[c.cfg['p']])
    m, n = A.shape
    k = 0 if C is None else C.shape[0]
    feas = c.feasible(A, b, C, d)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    fb, Ab, bb = f.copy(), A.copy(), b.copy()
    sol = c.pnnls.linear_program(f, A, b, **kw)
    c.check(c.and_(c.eq(f, fb), c.eq(A, Ab), c.eq(b, bb)), 'the data is left alone')
    bnd = bounded_lp(LPS[c.cfg['p']])
    if sol['min'] is None:
        none(c, sol, C)
        c.check(c.or_(not bnd, c.not_(feas)), 'None only for infeasible and unbounded programs')
        return
    c.check(c.and_(bnd, feas), 'None for infeasible and unbounded programs')
    x, y, mu = certificate(c, sol, f, A, b, C, d, f.dot(sol['argmin']))
    gap = b.dot(y) + sol['min']
    if k:
        gap = gap + d.dot(mu)
    # feasibility, dual feasibility and no gap: optimal, by weak duality
    c.check(c.eq(gap, 0), 'no duality gap: the minimiser is optimal and complementary')


def lp_again(c):
    """programs of the same shape solved one after the other, the first one again at the end; answers handed out stay as they were."""
    history(c, LPS[c.cfg['p']], None)


def qp_again(c):
    spec = QPS[c.cfg['p']]
    L = ocp.const(c, spec[0])
    history(c, spec[1:], L.dot(L.T))


def history(c, spec, H):
    c.stub(False)
    probs = [data(c, spec, H is not None, t) for t in ('', 'y')]
    sols = []
    for f, A, b, C, d in probs + [probs[0]]:
        kw = {} if C is None else dict(C=C, d=d)
        sols.append(c.pnnls.linear_program(f, A, b, **kw) if H is None else c.pnnls.quadratic_program(H, f, A, b, **kw))
    for s, (f, A, b, C, d) in zip(sols, probs + [probs[0]]):
        feas = c.feasible(A, b, C, d)
        bnd = H is not None or bounded_lp(spec)
        if s['min'] is None:
            none(c, s, C)
            c.check(c.or_(not bnd, c.not_(feas)), 'None only for infeasible and unbounded programs')
            continue
        c.check(c.and_(bnd, feas), 'None for infeasible and unbounded programs')
        x = s['argmin']
        g, v = (f, f.dot(x)) if H is None else (f + H.dot(x), x.dot(H).dot(x) / 2 + f.dot(x))
        x, y, mu = certificate(c, s, g, A, b, C, d, v)
        gap = (b - A.dot(x)).dot(y)
        c.check(c.eq(gap, 0), 'no duality gap: the minimiser is optimal and complementary')


def bounded_lp(spec):
    """z3: no direction of the recession cone decreases the cost."""
    from ..z3load import z3
    f, A, C = spec
    r = [z3.Real('r%d' % i) for i in range(len(f))]
    s = z3.Solver()
    for row in A:
        s.add(z3.Sum([a * x for a, x in zip(row, r)]) <= 0)
    for row in C or []:
        s.add(z3.Sum([a * x for a, x in zip(row, r)]) == 0)
    s.add(z3.Sum([a * x for a, x in zip(f, r)]) < 0)
    return s.check() != z3.sat


# H = L L' with rational L; (L, A, C)
QPS = {
    'a': ([[2]], None, [[1], [-3]], None),
    'b': ([[3]], None, [[-1]], None),
    'c': ([[1]], None, [[1], [-1], [2]], None),
    'tri': ([[1, 0], [1, 2]], None, [[-1, 0], [0, -1], [1, 2]], None),
    'half': ([[2, 0], [-1, 1]], None, [[1, 3]], None),
    'par': ([[1, 0], [3, 1]], None, [[1, 1], [-1, -1]], None),
    'zero': ([[1]], None, [[0], [1]], None),
    'eqa': ([[2]], None, [[1]], [[3]]),
    'eqb': ([[1, 0], [2, 1]], None, [[1, 1]], [[1, -1]]),
    'eqc': ([[2, 0], [1, 3]], None, [[-1, 0], [0, 1]], [[1, 2]]),
    'box': ([[1, 0], ['1/2', 1]], None, [[1, 0], [-1, 0], [0, 1], [0, -1]], None),
    'three': ([[1, 0, 0], [0, 2, 0], [1, 1, 1]], None, [[1, 0, 1], [0, -1, 2]], None),
    'free': ([[1, 0], [1, 1]], None, [[0, 0]], None), 'none1': ([[2]], [0], [], None), 'none2': ([[1, 0], [1, 2]], [0, 0], [], None), 'noneeq': ([[1, 0], [1, 2]], [0, 0], [], [[1, -1]]),
}


def qp(c):
    spec = QPS[c.cfg['p']]
    L = ocp.const(c, spec[0])
    H = L.dot(L.T)
    f, A, b, C, d = data(c, spec, fsym=True)
    feas = c.feasible(A, b, C, d)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    Hb, fb, Ab, bb = H.copy(), f.copy(), A.copy(), b.copy()
    sol = c.pnnls.quadratic_program(H, f, A, b, **kw)
    c.check(c.and_(c.eq(H, Hb), c.eq(f, fb), c.eq(A, Ab), c.eq(b, bb)), 'the data is left alone')
    if sol['min'] is None:
        none(c, sol, C)
        c.check(c.not_(feas), 'None only for infeasible programs')
        return
    c.check(feas, 'None for infeasible programs')
    x = sol['argmin']
    x, y, mu = certificate(c, sol, f + H.dot(x), A, b, C, d, (x.dot(H).dot(x)) / 2 + f.dot(x))
    s = b - A.dot(x)
    for i in range(A.shape[0]):
        c.check(c.or_(c.eq(y[i], 0), c.eq(s[i], 0)), 'complementarity')


def scalar(c):
    """one variable, everything symbolic."""
    h, f, A, b = c.real('h'), c.vec('f', 1), c.mat('A', c.cfg['m'], 1), c.vec('b', c.cfg['m'])
    c.assume(c.ge(h, 0.1))
    c.stub(False)
    sol = c.pnnls.quadratic_program(c.arr([[h]]), f, A, b)
    if sol['min'] is None:
        none(c, sol, None)
        if c.cfg['m'] == 1:
            c.check(c.and_(c.eq(A[0, 0], 0), c.lt(b[0], 0)), 'None only for infeasible programs')
        return
    x = sol['argmin']
    certificate(c, sol, f + h * x, A, b, None, None, h * x.dot(x) / 2 + f.dot(x))


def missing(c):
    f, A, b = c.vec('f', 2), c.mat('A', 2, 2), c.vec('b', 2)
    C, d = c.mat('C', 1, 2), c.vec('d', 1)
    c.stub(False)
    H = c.np.eye(2)
    for kw in (dict(C=C), dict(d=d)):
        if c.cfg['k'] == 'lp':
            r = c.call(c.pnnls.linear_program, f, A, b, **kw)
        else:
            r = c.call(c.pnnls.quadratic_program, H, f, A, b, **kw)
        c.check(r.raised(ValueError), 'giving only one of C and d raises a ValueError')


LPS.update({
    'gon': ([1, 3], [[3, 4], [-4, 3], [-3, -4], [4, -3], [3, -4], [4, 3], [-3, 4], [-4, -3], [1, 0], [0, 1]], None),
    'box3': ([1, -2, 3], [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 1]], None),
    'simp4': ([1, 2, 3, -1], [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1], [1, 1, 1, 1]], None),
    'eq4': ([1, 2, 3, -1], [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]], [[1, 1, 1, 1], [1, -1, 0, 0]]),
    'simp5': ([2, 1, -3, 1, 1], [[(-1 if i == j else 0) for j in range(5)] for i in range(5)] + [[1, 2, 1, 1, 3]], None),
    'box5': ([2, 1, -3, 1, -1], [[(s if i == j else 0) for j in range(5)] for i in range(5) for s in (1, -1)], None),
})
QPS.update({
    'gon': ([[1, 0], [1, 2]], None, [[3, 4], [-4, 3], [-3, -4], [4, -3], [3, -4], [4, 3], [-3, 4], [-4, -3], [1, 0], [0, 1]], None),
    'box3': ([[1, 0, 0], [0, 2, 0], [1, 1, 1]], None, [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 1]], None),
    'simp4': ([[1, 0, 0, 0], [1, 1, 0, 0], [0, 2, 1, 0], [0, 0, 1, 3]], None, [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1], [1, 1, 1, 1]], None),
    'eq4': ([[1, 0, 0, 0], [1, 1, 0, 0], [0, 2, 1, 0], [0, 0, 1, 3]], None, [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1]], [[1, 1, 1, 1], [1, -1, 0, 0]]),
    'box5': ([[(2 if i == j else 1 if i == j + 1 else 0) for j in range(5)] for i in range(5)], None, [[(s if i == j else 0) for j in range(5)] for i in range(5) for s in (1, -1)], None),
})
# constant right-hand sides and QP costs, used where a configuration leaves only some of them free
BASE.update({
    'a': ([1, 4], [], [3]), 'tri': ([1, 1, 5], [], [-1, 2]), 'box': ([1, 2, 3, 1], [], [3, -2]), 'eqb': ([1, 2], [3], [1, 1]), 'eqc': ([1, 2], [1], [1, -4]), 'par': ([1, 2], [], [4, -1]),
    'gon': ([5, 5, 5, 5, 5, 5, 5, 5, 1, 1], [], [-4, 7]), 'box3': ([1, 2, 1, 1, 3, 1, 4], [], [3, -20, 5]), 'simp4': ([1, 0, 0, 2, 6], [], [-9, 4, 1, -7]), 'eq4': ([0, 0, 1, 0], [5, 1], [1, -3, 2, 4]),
    'simp5': ([0, 0, 1, 0, 0, 7], [], None), 'box5': ([1, 1, 2, 1, 1, 1, 3, 1, 1, 1], [], [4, -3, 30, -1, 2]),
})


W = dict(witnesses=4, witness_margins=[Fraction(1, 8), Fraction(1, 100)])
_l = ['a', 'b', 'c', 'z', 'u', 'tri', 'box', 'cone', 'esc', 'par', 'eqa', 'eqb', 'eqc', 'eqd', 'eqz', 'eq2', 'noineq', 'tet', 'dup', 'none1', 'none2', 'noneeq', 'noneeq2', 'nonept']
_q = ['a', 'b', 'c', 'tri', 'half', 'par', 'zero', 'eqa', 'eqb', 'eqc', 'box', 'three', 'free', 'none1', 'none2', 'noneeq']
_lb = [dict(p='gon', free=[0]), dict(p='box3', free=[6]), dict(p='simp4', free=[4]), dict(p='eq4', free=[2]), dict(p='simp5', free=[5]), dict(p='box5', free=[4]), dict(p='gon', free=[]), dict(p='box3', free=[], int=True),
       dict(p='a', free=[0], int=True), dict(p='tri', free=[], int=True), dict(p='box', free=[1], int=True), dict(p='eqb', free=[0], int=True)]
_qb = [dict(p='gon', free=[]), dict(p='box3', free=[6]), dict(p='simp4', free=[4]), dict(p='eq4', free=[2]), dict(p='box5', free=[]), dict(p='box3', free=[], ffree=[0], int=True),
       dict(p='a', free=[0], int=True), dict(p='tri', free=[], int=True), dict(p='box', free=[1], ffree=[0]), dict(p='eqb', free=[0], int=True)]
LP = Harness('lp', lp, [dict(p=k) for k in _l] + _lb, **W)
QP = Harness('qp', qp, [dict(p=k) for k in _q] + _qb, **W)
LPA = Harness('lp_again', lp_again, [dict(p='a'), dict(p='b'), dict(p='z'), dict(p='eqa'), dict(p='tri', free=[0]), dict(p='eqb', free=[0]), dict(p='esc'), dict(p='box', free=[2], int=True)], **W)
QPA = Harness('qp_again', qp_again, [dict(p='a'), dict(p='b'), dict(p='tri', free=[0]), dict(p='eqb', free=[0], ffree=[0]), dict(p='par', free=[0, 1]), dict(p='box', free=[2], int=True)], **W)
SCALAR = Harness('scalar', scalar, [dict(m=1)], **W)
