"""Critical regions of a multiparametric QP satisfy the KKT conditions everywhere in them."""
from itertools import combinations
from ..runner import Harness
from . import ocp

BOUNDS = 'up to 5 inputs, 3 parameters and 11 constraints; constant rational Hessians and constraint matrices (free reals for 1 input, 1 parameter, 2 constraints), linear cost terms, constant term, right-hand sides and the parameter free reals; every active set with at most as many rows as inputs (and dependent ones), every single-constraint, empty and wrong guess'
OUTSIDE = 'other Hessians and constraint matrices; parameters within 1e-6 of a region boundary; parameters where the rows with positive multipliers are dependent (None is returned there, as documented)'
ASSUMPTIONS = ['the QP solver meets its contract (C18)']
TOL = 1e-6

# nu, nx: Huu, Hux, Hxx, Au, Ax
DATA = {
    'a': ([[2]], [[1]], [[3]], [[1], [-1], [2]], [[0], [1], [-1]]),
    'b': ([[2, 1], [1, 3]], [[1], [-1]], [[4]], [[1, 0], [-1, 0], [0, 1], [1, 1]], [[1], [0], [-2], [0]]),
    'c': ([[3]], [[1, -2]], [[2, 1], [1, 5]], [[1], [-1], [1]], [[3, 4], [0, 1], [1, 0]]),
    'd': ([[2, 0], [0, 1]], [[1, 0], [2, -1]], [[6, 1], [1, 4]], [[1, 0], [0, 1], [-1, -1], [2, -1], [0, 0]], [[1, 0], [0, -1], [1, 1], [0, 2], [1, 1]]),
    'e': ([[2, 1, 0], [1, 3, 0], [0, 0, 1]], [[1], [0], [2]], [[9]], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, -1, -1], [1, -1, 0]], [[0], [1], [-1], [1], [2]]),
    'g': ([[(3 if i == j else 1 if abs(i - j) == 1 else 0) for j in range(5)] for i in range(5)], [[1, 0], [0, 1], [1, -1], [2, 0], [0, 0]], [[9, 0], [0, 9]],
          [[(s if i == j else 0) for j in range(5)] for i in range(5) for s in (1, -1)] + [[1, 1, 1, 1, 1]], [[i % 2, 1 - i % 3] for i in range(11)]),
    'h': ([[3]], [[1, -2, 0]], [[2, 1, 0], [1, 5, 0], [0, 0, 3]], [[1], [-1], [1], [0], [0]], [[3, 4, 0], [0, 1, 1], [1, 0, -1], [0, 3, 4], [1, 0, 0]]),
    'f': ([[4, 1], [1, 1]], [[0], [0]], [[1]], [[1, 0], [2, 0], [0, 1], [0, -1]], [[0], [0], [0], [0]]),
}


def program(c, name, lin=True):
    Huu, Hux, Hxx, Au, Ax = ((c.ints(t) if c.cfg.get('int') else ocp.const(c, t)) for t in DATA[name])
    nu, nx = Hux.shape
    m = Au.shape[0]
    f = {'u': c.vec('fu', nu), 'x': c.vec('fx', nx)}
    g = c.real('g')
    b = c.vec('b', m)
    if c.cfg.get('int') == 2:
        f = {'u': c.ints([2 - 3 * i for i in range(nu)]), 'x': c.ints([1] * nx)}
        b = c.ints([1 + i % 3 for i in range(m)])
    H, A = {'uu': Huu, 'ux': Hux, 'xx': Hxx}, {'u': Au, 'x': Ax}
    return H, f, g, A, b, nu, nx, m


def build(c, H, f, g, A, b):
    cp = lambda d: {k: v.copy() for k, v in d.items()}
    return c.pp.MultiParametricQuadraticProgram(cp(H), cp(f), g, cp(A), b.copy())


def cost(H, f, g, u, x):
    return (u.dot(H['uu']).dot(u) + 2 * u.dot(H['ux'].dot(x)) + x.dot(H['xx']).dot(x)) / 2 + f['u'].dot(u) + f['x'].dot(x) + g


def kkt(c, H, f, A, b, u, p, x, relax=0):
    st = H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)
    cs = [c.le(st, relax), c.ge(st, -relax)] if relax else [c.eq(st, st * 0)]
    cs.append(c.le(A['u'].dot(u) + A['x'].dot(x), b + relax))
    cs.append(c.ge(p, -relax))
    return c.and_(*cs)


def independent(rows):
    import sympy
    return not rows or sympy.Matrix(rows).rank() == len(rows)


def region(c, M, cr, act, H, f, g, A, b, nu, nx, m, x):
    u, p, V = cr.u(x), cr.p(x), cr.V(x)
    c.check(tuple(u.shape) == (nu,) and tuple(p.shape) == (m,), 'one input per variable, one multiplier per constraint')
    slack = b - A['u'].dot(u) - A['x'].dot(x)
    c.check(c.and_(*[c.eq(slack[i], 0) for i in act]), 'active constraints hold with equality')
    c.check(c.and_(*[c.eq(p[i], 0) for i in range(m) if i not in act]), 'inactive constraints have zero multiplier')
    st = H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)
    c.check(c.eq(st, st * 0), 'the Lagrangian is stationary')
    c.check(c.eq(V, cost(H, f, g, u, x)), 'V is the cost of u')
    ok = c.and_(c.ge(slack, -TOL), c.ge(p, -TOL))
    tight = c.and_(c.ge(slack, 0), c.ge(p, 0))
    inside = cr.contains(x.copy())
    if c.truth(c.cond(inside)):
        c.check(c.and_(c.ge(slack, -50 * TOL), c.ge(p, -50 * TOL)), 'inside the region the input is feasible and the multipliers are non-negative')
    else:
        c.check(c.not_(tight), 'the region contains every parameter where this active set is optimal')
    del ok


def given_set(c):
    H, f, g, A, b, nu, nx, m = program(c, c.cfg['p'])
    M = build(c, H, f, g, A, b)
    act = list(c.cfg['act'])
    cr = M.explicit_solve_given_active_set(list(act))
    if not independent([DATA[c.cfg['p']][3][i] for i in act]):
        c.check(cr is None, 'dependent active rows give None')
        return
    c.check(cr is not None, 'independent active rows give a critical region')
    c.check(sorted(cr.active_set) == sorted(act), 'the region carries its active set')
    c.opts(approx=True)
    x = c.vec('x', nx)
    region(c, M, cr, act, H, f, g, A, b, nu, nx, m, x)
    c.check(c.and_(*[c.eq(M.A[k], A[k]) for k in A] + [c.eq(M.H[k], H[k]) for k in H] + [c.eq(M.b, b)]), 'the program is left alone')


def given_point(c):
    c.opts(approx=True)
    H, f, g, A, b, nu, nx, m = program(c, c.cfg['p'])
    M = build(c, H, f, g, A, b)
    x = c.vec('x', nx)
    v = c.vec('v', nu)
    c.points(v)
    guess = c.cfg['guess']
    cr = M.explicit_solve_given_point(x.copy(), None if guess is None else list(guess))
    feas = c.feasible(A['u'], b - A['x'].dot(x))
    if cr is None:
        sol = M.solve(x.copy())
        if sol['min'] is None:
            c.check(c.not_(feas), 'None for an infeasible parameter only')
            c.check(c.not_(c.le(A['u'].dot(v) + A['x'].dot(x), b)), 'no input is feasible for an infeasible parameter')
        else:
            p = sol['multiplier_inequality']
            act = [i for i in range(m) if c.truth(c.gt(p[i], 0 if c.symbolic else 1e-7))]
            c.check(not independent([DATA[c.cfg['p']][3][i] for i in act]), 'None for a feasible parameter only if the active rows are dependent')
        return
    c.check(c.feasible(A['u'], b - A['x'].dot(x) + 50 * TOL), 'None if the parameter is infeasible')
    c.check(c.cond(cr.contains(x.copy())), 'the region returned for a parameter contains it')
    act = [i for i in cr.active_set]
    region(c, M, cr, act, H, f, g, A, b, nu, nx, m, x)


def solve(c):
    H, f, g, A, b, nu, nx, m = program(c, c.cfg['p'])
    M = build(c, H, f, g, A, b)
    x, v = c.vec('x', nx), c.vec('v', nu)
    c.points(v)
    c.opts(qp_points=True)
    sol = M.solve(x.copy())
    fv = c.le(A['u'].dot(v) + A['x'].dot(x), b)
    if sol['min'] is None:
        c.check(c.not_(fv), 'None only if no input is feasible')
        c.check(all(sol[k] is None for k in ('argmin', 'active_set', 'multiplier_inequality')), 'every field is None if infeasible')
        return
    u, p = sol['argmin'], sol['multiplier_inequality']
    c.check(c.le(A['u'].dot(u) + A['x'].dot(x), b + (0 if c.symbolic else 1e-5)), 'the minimiser is feasible')
    st = H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)
    c.check(c.eq(st, st * 0), 'the Lagrangian is stationary at the minimiser')
    c.check(c.ge(p, 0 if c.symbolic else -1e-6), 'multipliers are non-negative')
    c.check(c.eq(sol['min'], cost(H, f, g, u, x)), 'min is the full cost at the minimiser')
    c.check(c.implies(fv, c.le(sol['min'], cost(H, f, g, v, x))), 'no feasible input costs less')


def free(c):
    """everything symbolic: one input, one parameter."""
    m = c.cfg['m']
    H = {'uu': c.mat('Huu', 1, 1), 'ux': c.mat('Hux', 1, 1), 'xx': c.mat('Hxx', 1, 1)}
    c.assume(c.gt(H['uu'][0, 0], 0.1))
    A = {'u': c.mat('Au', m, 1), 'x': c.mat('Ax', m, 1)}
    f = {'u': c.vec('fu', 1), 'x': c.vec('fx', 1)}
    g, b = c.real('g'), c.vec('b', m)
    M = build(c, H, f, g, A, b)
    x = c.vec('x', 1)
    act = list(c.cfg['act'])
    for i in act:
        c.assume(c.or_(c.gt(A['u'][i, 0], 0.1), c.lt(A['u'][i, 0], -0.1)))
    cr = M.explicit_solve_given_active_set(list(act))
    c.check(cr is not None, 'independent active rows give a critical region')
    u, p, V = cr.u(x), cr.p(x), cr.V(x)
    slack = b - A['u'].dot(u) - A['x'].dot(x)
    c.check(c.and_(*[c.eq(slack[i], 0) for i in act]), 'active constraints hold with equality')
    c.check(c.and_(*[c.eq(p[i], 0) for i in range(m) if i not in act]), 'inactive constraints have zero multiplier')
    st = H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)
    c.check(c.eq(st, st * 0), 'the Lagrangian is stationary')
    c.check(c.eq(V, cost(H, f, g, u, x)), 'V is the cost of u')


def again(c):
    """several active sets and points on one program, in any order, arrays reused: earlier regions stay what they were."""
    c.opts(approx=True)
    H, f, g, A, b, nu, nx, m = program(c, c.cfg['p'])
    M = build(c, H, f, g, A, b)
    got = []
    for a in c.cfg['acts']:
        lst = list(a)
        cr = M.explicit_solve_given_active_set(lst)
        got.append((list(a), cr))
    x = c.vec('x', nx)
    pt = ocp.const(c, [0] * nx)
    cr0 = M.explicit_solve_given_point(pt, [0])
    pt[:] = x
    M.solve(pt)
    c.check(c.eq(pt, x), 'the parameter given is left alone')
    for a, cr in got:
        if cr is None:
            c.check(not independent([DATA[c.cfg['p']][3][i] for i in a]), 'independent active rows give a critical region')
            continue
        c.check(sorted(cr.active_set) == sorted(a), 'the region carries its active set')
        u, p, V = cr.u(x), cr.p(x), cr.V(x)
        slack = b - A['u'].dot(u) - A['x'].dot(x)
        c.check(c.and_(*[c.eq(slack[i], 0) for i in a]), 'active constraints hold with equality')
        c.check(c.and_(*[c.eq(p[i], 0) for i in range(m) if i not in a]), 'inactive constraints have zero multiplier')
        st = H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)
        c.check(c.eq(st, st * 0), 'the Lagrangian is stationary')
        c.check(c.eq(V, cost(H, f, g, u, x)), 'V is the cost of u')
    del cr0
    c.check(c.and_(*[c.eq(M.A[k], A[k]) for k in A] + [c.eq(M.H[k], H[k]) for k in H] + [c.eq(M.b, b)] + [c.eq(M.f[k], f[k]) for k in f]), 'the program is left alone')


_a = []
for k, mx in (('a', 2), ('b', 2), ('c', 1), ('f', 2), ('d', 2), ('e', 3)):
    m = len(DATA[k][3])
    for r in range(mx + 1):
        _a += [dict(p=k, act=s) for s in combinations(range(m), r)]
_a += [dict(p='b', act=(3, 1)), dict(p='d', act=(3, 0)), dict(p='e', act=(4, 0, 2))]
_pts = [dict(p=k, guess=gs) for k in 'abcf' for gs in (None, (), (1,), (0, 1))] + [dict(p='d', guess=gs) for gs in (None, (), (2,), (1, 3))] + [dict(p='e', guess=gs) for gs in (None, (), (2,), (1, 3))]
HARNESSES = [
    Harness('again', again, [dict(p='a', acts=[(), (0,), (1,), (2,), (0,)]), dict(p='b', acts=[(0,), (0, 2), (2,), (), (2, 3), (0, 1), (3, 2)]), dict(p='c', acts=[(1,), (0,), ()], int=True), dict(p='f', acts=[(0, 1), (0, 2), (1, 2), (2,)])],
            witnesses=2, witness_margins=[0.125, 0.01], bound=8),
    Harness('given_set', given_set, [dict(p=k, act=s, int=i) for i in (1, 2) for k, s in (('a', (0,)), ('b', (0, 2)), ('c', ()), ('d', (1, 2)))] + [dict(p='h', act=s) for s in ((), (1,), (3,), (0, 3))]
            + [dict(p='g', act=s) for s in ((), (10,), (0, 3), (1, 2, 5), (0, 3, 5, 6), (1, 3, 4, 7, 9), (0, 3, 5, 6, 10), (9, 0, 4, 2, 6), (0, 1), (0, 2, 4, 6, 8, 10))], witnesses=2, witness_margins=[0.125, 0.01], bound=8),
    Harness('given_set', given_set, [dict(x, real=True) for x in _a if len(x['act']) < 2], quick=20, witnesses=2, witness_margins=[0.125, 0.01], bound=8),
    Harness('given_set', given_set, _a, quick=None, witnesses=2, witness_margins=[0.125, 0.01], bound=8),
    Harness('given_point', given_point, _pts + [dict(p='h', guess=None), dict(p='h', guess=(3,)), dict(p='a', guess=(2,), int=1), dict(p='b', guess=(3,), int=1)], quick=None, witnesses=5, witness_margins=[0.125, 0.01], bound=8),
    Harness('solve', solve, [dict(p=k) for k in 'abcfde'], witnesses=3, witness_margins=[0.125, 0.01], bound=8),
    Harness('free', free, [dict(m=2, act=()), dict(m=2, act=(1,)), dict(m=3, act=(0,)), dict(m=3, act=(2,))], quick=None, witnesses=2, witness_margins=[0.125, 0.01]),
]
