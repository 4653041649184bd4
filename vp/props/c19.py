"""Gurobi wrappers and front ends."""
from fractions import Fraction
from ..runner import Harness
from . import ocp, solvers

TOL = 1e-4
BOUNDS = 'up to 3 variables (2 binary), 4 inequalities, 2 equalities: the matrices listed in vp/props/solvers.py and c19.py, right-hand sides (quadratic programs: and linear costs) free reals; one-variable programs with every entry free; every outcome the solver may report'
OUTSIDE = 'what happens inside Gurobi; entries of modulus in (0, 1e-9], which the wrappers drop; Drake'
ASSUMPTIONS = ['Gurobi solves the model it is handed: a returned point and duals satisfy its optimality conditions, Pi = derivative of the value with respect to the right-hand side, CBasis = -1 for constraints at their bound (documentation of Gurobi)']

FACES = ('gurobi', 'front')


def lp(c):
    spec = solvers.LPS[c.cfg['p']]
    f, A, b, C, d = solvers.data(c, spec)
    k = 0 if C is None else C.shape[0]
    w = c.vec('w', A.shape[1])
    known = c.choice('feasible point', [True, False])
    bnd = solvers.bounded_lp(spec)
    if known:
        c.assume(c.le(A.dot(w), b))
        if k:
            c.assume(c.eq(C.dot(w), d))
    nz(c, b, d)
    c.points(w)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    before = [v.copy() for v in (f, A, b)]
    if c.cfg['via'] == 'gurobi':
        sol = c.gurobi.linear_program(f, A, b, **kw)
    else:
        sol = c.prog.linear_program(f, A, b, solver='gurobi', **kw)
    c.check(c.and_(*[c.eq(u, v) for u, v in zip(before, (f, A, b))]), 'the data is left alone')
    if sol['min'] is None:
        solvers.none(c, sol, C)
        c.check(not (known and bnd), 'None only for infeasible and unbounded programs')
        return
    certificate(c, sol, f, A, b, C, d, f.dot(sol['argmin']))


def certificate(c, sol, g, A, b, C, d, value, lp=True):
    m = A.shape[0]
    x, y, mu = sol['argmin'], sol['multiplier_inequality'], sol['multiplier_equality']
    c.check(x is not None and y is not None and sol['active_set'] is not None, 'with a solution every field is set')
    c.check(tuple(x.shape) == (A.shape[1],) and tuple(y.shape) == (m,), 'one entry per variable and multiplier')
    s = b - A.dot(x)
    c.check(c.ge(s, 0), 'the minimiser satisfies the inequalities')
    c.check(c.ge(y, 0), 'the multipliers of the inequalities are non-negative')
    L = g + A.T.dot(y)
    if C is not None and C.shape[0]:
        c.check(c.eq(C.dot(x), d), 'the minimiser satisfies the equalities')
        c.check(mu is not None and tuple(mu.shape) == (C.shape[0],), 'one multiplier per equality')
        L = L + C.T.dot(mu)
    else:
        c.check(mu is None, 'no multiplier without equalities')
    c.check(c.eq(L, L * 0), 'the gradient of the Lagrangian vanishes')
    c.check(c.eq(sol['min'], value), 'the value is the cost of the minimiser')
    act = [int(i) for i in sol['active_set']]
    c.check(act == sorted(set(act)) and all(0 <= i < m for i in act), 'the active set is a sorted list of rows')
    for i in range(m):
        c.check(c.or_(c.eq(y[i], 0), c.eq(s[i], 0)), 'complementarity')
        if i in act:
            c.check(c.eq(s[i], 0) if lp else c.gt(y[i], 0), 'the rows in the active set are active')
        else:
            c.check(c.le(y[i], TOL), 'the rows with positive multipliers are in the active set')


def nz(c, *vs):
    for v in vs:
        for z in ([] if v is None else c.np.ravel(v)):
            c.assume(c.or_(c.ge(z, 1e-6), c.le(z, -1e-6)) if 'free' not in c.cfg else c.or_(c.eq(z, 0), c.ge(z, 1e-6), c.le(z, -1e-6)))


def qp(c):
    spec = solvers.QPS[c.cfg['p']]
    L = ocp.const(c, spec[0])
    H = L.dot(L.T)
    f, A, b, C, d = solvers.data(c, spec, fsym=True)
    w = c.vec('w', A.shape[1])
    known = c.choice('feasible point', [True, False])
    if known:
        c.assume(c.le(A.dot(w), b))
        if C is not None:
            c.assume(c.eq(C.dot(w), d))
    nz(c, f, b, d)
    c.points(w)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    before = [v.copy() for v in (H, f, A, b)]
    if c.cfg['via'] == 'gurobi':
        sol = c.gurobi.quadratic_program(H, f, A, b, **kw)
    else:
        sol = c.prog.quadratic_program(H, f, A, b, solver='gurobi', **kw)
    c.check(c.and_(*[c.eq(u, v) for u, v in zip(before, (H, f, A, b))]), 'the data is left alone')
    if sol['min'] is None:
        solvers.none(c, sol, C)
        c.check(not known, 'None only for infeasible programs')
        return
    x = sol['argmin']
    certificate(c, sol, f + H.dot(x), A, b, C, d, x.dot(H).dot(x) / 2 + f.dot(x), lp=False)


# (L, A, C, nc)
MI = {
    'a': ([[2, 0], [1, 1]], [[1, 1], [-1, 2]], None, 1),
    'b': ([[1, 0, 0], [1, 2, 0], [0, 1, 1]], [[1, 2, -1], [0, -1, 1]], None, 1),
    'c': ([[1, 0], [3, 2]], [[-1, 2]], [[1, -1]], 1),
    'd': ([[1, 0], [-1, 1]], [[2, 1]], None, 0),
    'e': ([[1, 0, 0], [1, 1, 0], [2, 0, 1]], [[1, 0, 2], [-1, 1, 0]], [[1, 1, 1]], 2),
    'f': ([[2, 0], [1, 1]], [[1, 1], [-1, 2]], None, 2),
}


def mi(c):
    L, A, C, nc = MI[c.cfg['p']]
    spec = (L, [0] * len(L), A, C)
    L = ocp.const(c, L)
    H = L.dot(L.T)
    f, A, b, C, d = solvers.data(c, spec, fsym=True)
    n = A.shape[1]
    w = c.arr([c.real('w[%d]' % i) for i in range(nc)] + [c.choice('binary', [c.const(0), c.const(1)]) for i in range(nc, n)], (n,))
    known = c.choice('feasible point', [True, False])
    if known:
        c.assume(c.le(A.dot(w), b))
        if C is not None:
            c.assume(c.eq(C.dot(w), d))
    nz(c, f, b, d)
    c.points(w)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    if c.cfg['via'] == 'gurobi':
        sol = c.gurobi.mixed_integer_quadratic_program(nc, H, f, A, b, **kw)
    elif c.cfg['via'] == 'front':
        sol = c.prog.mixed_integer_quadratic_program(nc, H, f, A, b, **kw)
    else:
        sol = c.prog.mixed_integer_quadratic_program(nc, H, f, A, b, solver='gurobi', **kw)
    if sol['min'] is None:
        c.check(all(v is None for v in sol.values()) and 'argmin' in sol, 'without a solution every field is None')
        c.check(not known, 'None only for infeasible programs')
        return
    x = sol['argmin']
    c.check(tuple(x.shape) == (n,), 'one entry per variable')
    c.check(c.le(A.dot(x), b), 'the minimiser satisfies the inequalities')
    if C is not None:
        c.check(c.eq(C.dot(x), d), 'the minimiser satisfies the equalities')
    for i in range(nc, n):
        c.check(c.or_(c.eq(x[i], 0), c.eq(x[i], 1)), 'the last variables are binary')

    def cost(v):
        return v.dot(H).dot(v) / 2 + f.dot(v)
    c.check(c.eq(sol['min'], cost(x)), 'the value is the cost of the minimiser')
    if known:
        c.check(c.le(sol['min'], cost(w)), 'no feasible point costs less')


def scalar(c):
    """one variable, every entry free."""
    k = c.cfg['eq']
    h, f, A, b, C, d = c.real('h'), c.vec('f', 1), c.mat('A', 2 - k, 1), c.vec('b', 2 - k), c.mat('C', 1, 1), c.vec('d', 1)
    if not k:
        C = d = None
    c.assume(c.ge(h, 0.1))
    c.opts()
    for v in (f, A, b, C, d):
        if v is not None:
            for z in c.np.ravel(v):
                c.assume(c.or_(c.eq(z, 0), c.ge(z, 1e-6), c.le(z, -1e-6)))
    c.stub(False)
    sol = c.gurobi.quadratic_program(c.arr([[h]]), f, A, b, C, d)
    if sol['min'] is None:
        solvers.none(c, sol, C)
        return
    x = sol['argmin']
    certificate(c, sol, f + h * x, A, b, C, d, h * x.dot(x) / 2 + f.dot(x), lp=False)


def again(c):
    """programs of the same shape one after the other, the first one again; answers handed out stay as they were; a run cut short in between."""
    kind = c.cfg['k']
    spec = (solvers.LPS if kind == 'lp' else solvers.QPS)[c.cfg['p']]
    if kind != 'lp':
        L = ocp.const(c, spec[0])
        H = L.dot(L.T)
    probs = [solvers.data(c, spec, kind != 'lp', t) for t in ('', 'y')]
    for f, A, b, C, d in probs:
        nz(c, *((b, d) if kind == 'lp' else (f, b, d)))
    c.stub(False)
    sols, stop = [], []
    for k, (f, A, b, C, d) in enumerate(probs + [probs[0]]):
        c.opts()
        kw = {} if C is None else dict(C=C, d=d)
        call = (lambda **o: c.gurobi.linear_program(f, A, b, **o)) if kind == 'lp' else (lambda **o: c.gurobi.quadratic_program(H, f, A, b, **o))
        if k == 1:
            stop = call(TimeLimit=0., **kw)
            solvers.none(c, stop, C)
        sols.append(call(TimeLimit=1000., **kw) if k == 0 else call(**kw))
    for s, (f, A, b, C, d) in zip(sols, probs + [probs[0]]):
        if s['min'] is None:
            solvers.none(c, s, C)
            continue
        x = s['argmin']
        if kind == 'lp':
            certificate(c, s, f, A, b, C, d, f.dot(x))
        else:
            certificate(c, s, f + H.dot(x), A, b, C, d, x.dot(H).dot(x) / 2 + f.dot(x), lp=False)


def options(c):
    """the options given reach the solver: with no time at all there is no solution."""
    L, A, C, nc = MI[c.cfg['p']]
    spec = (L, [0] * len(L), A, C)
    L = ocp.const(c, L)
    H = L.dot(L.T)
    f, A, b, C, d = solvers.data(c, spec, fsym=True)
    nz(c, f, b, d)
    c.stub(False)
    kw = {} if C is None else dict(C=C, d=d)
    o = c.choice('options', [dict(TimeLimit=0.), dict(Method=1, TimeLimit=0.), dict(TimeLimit=0., Presolve=0)])
    for fn, a in ((c.gurobi.linear_program, (f, A, b)), (c.gurobi.quadratic_program, (H, f, A, b)), (c.gurobi.mixed_integer_quadratic_program, (nc, H, f, A, b))):
        s = fn(*a, **dict(kw, **o))
        c.check(s['min'] is None and s['argmin'] is None, 'options are handed to the solver')


def front(c):
    """the default solver and 'pnnls' by name, with all the arguments."""
    quad, spec = (True, solvers.QPS[c.cfg['p']]) if c.cfg['k'] == 'qp' else (False, solvers.LPS[c.cfg['p']])
    f, A, b, C, d = solvers.data(c, spec, fsym=quad)
    feas = c.feasible(A, b, C, d)
    name = c.choice('name', ['default', 'pnnls', 'positional'])
    kw = {} if C is None else dict(C=C, d=d)
    if name == 'pnnls':
        kw['solver'] = 'pnnls'
    if quad:
        L = ocp.const(c, spec[0])
        H = L.dot(L.T)
        sol = c.prog.quadratic_program(H, f, A, b, C, d, 'pnnls') if name == 'positional' else c.prog.quadratic_program(H, f, A, b, **kw)
    else:
        sol = c.prog.linear_program(f, A, b, C, d, 'pnnls') if name == 'positional' else c.prog.linear_program(f, A, b, **kw)
    if sol['min'] is None:
        solvers.none(c, sol, C)
        c.check(c.or_(c.not_(feas), not quad and not solvers.bounded_lp(spec)), 'None only for infeasible and unbounded programs')
        return
    c.check(feas, 'None for infeasible programs')
    x = sol['argmin']
    if quad:
        solvers.certificate(c, sol, f + H.dot(x), A, b, C, d, x.dot(H).dot(x) / 2 + f.dot(x))
    else:
        solvers.certificate(c, sol, f, A, b, C, d, f.dot(x))


def unknown(c):
    f, A, b = c.vec('f', 2), c.mat('A', 2, 2), c.vec('b', 2)
    H = c.np.eye(2)
    name = c.choice('name', ['', 'Gurobi', 'pnnls ', 'cplex', None, 0, 'gurobi2'])
    for fn, a in ((c.prog.linear_program, (f, A, b)), (c.prog.quadratic_program, (H, f, A, b)), (c.prog.mixed_integer_quadratic_program, (1, H, f, A, b))):
        c.check(c.call(fn, *a, solver=name).raised(ValueError), 'an unknown solver name raises a ValueError')


W = dict(tol=1e-5, witnesses=4, witness_margins=[Fraction(1, 8)], margins=[Fraction(1, 8), Fraction(1, 100)])
HARNESSES = [
    Harness('lp', lp, [dict(p=k, via=v) for v in FACES for k in ('a', 'eqb', 'tri', 'u', 'par', 'eqc', 'eqz', 'box', 'b', 'c', 'cone', 'esc', 'eqa', 'eqd', 'eq2', 'tet', 'dup')] + [dict(q, via=v) for q in solvers._lb if q['p'] not in ('gon', 'box5') for v in FACES] + [dict(q, via='gurobi') for q in solvers._lb if q['p'] in ('gon', 'box5')], quick=-3, **W),
    Harness('qp', qp, [dict(p=k, via=v) for v in FACES for k in ('a', 'tri', 'eqb', 'eqc', 'half', 'par', 'c', 'eqa', 'box', 'three', 'free')] + [dict(q, via=v) for q in solvers._qb for v in FACES], **W),
    Harness('mi', mi, [dict(p=k, via=v) for v in ('gurobi', 'front', 'name') for k in ('a', 'b', 'c', 'd', 'e', 'f')], **W),
    Harness('scalar', scalar, [dict(eq=0), dict(eq=1)], **W),
    Harness('again', again, [dict(k='lp', p=k) for k in ('a', 'b', 'tri', 'eqb', 'eqc')] + [dict(k='qp', p=k) for k in ('a', 'eqb', 'par')] + [dict(k='qp', p='box', free=[2], int=True), dict(k='lp', p='box', free=[2], int=True), dict(k='qp', p='tri')], quick=-2, **W),
    Harness('options', options, [dict(p=k) for k in ('a', 'c', 'f')], **W),
    Harness('front', front, [dict(k='lp', p=k) for k in ('a', 'tri', 'eqb', 'eqc', 'u')] + [dict(k='qp', p=k) for k in ('a', 'tri', 'eqb', 'eqc', 'par')], **W),
    Harness('unknown', unknown, [dict()], **W),
]
