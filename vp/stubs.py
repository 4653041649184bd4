"""Contracts for the numerical solvers, used when a consumer of them is checked.

With constant constraint matrices the contracts are exact and linear: feasibility is the sign of
the right-hand side on the extreme rays of the Farkas cone, optimality is attained at a vertex of
the dual polyhedron; both are enumerated in rationals from the matrices the code passes in."""
from fractions import Fraction
from itertools import combinations
from math import comb

from . import sym as S
from . import linalg as L
from . import symnp as N
from .sym import Sym, B, ZERO, ONE, Unsupported, and_, or_, not_, cmp0, implies

_cache = {}


class Runaway(Exception):
    """an algorithm that does not come to an end."""


class Sol(dict):
    """solution dictionary whose costly fields are computed on first access."""

    def __init__(self, d, lazy=None):
        dict.__init__(self, d)
        self.lazy = lazy or {}

    def _force(self, k):
        if k in self.lazy:
            dict.__setitem__(self, k, self.lazy.pop(k)())

    def __getitem__(self, k):
        self._force(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if k not in self:
            return d
        return self[k]

    def items(self):
        for k in list(self.lazy):
            self._force(k)
        return dict.items(self)

    def values(self):
        for k in list(self.lazy):
            self._force(k)
        return dict.values(self)

    def copy(self):
        self.items()
        return Sol(dict(dict.items(self)))

    def __setitem__(self, k, v):
        self.lazy.pop(k, None)
        dict.__setitem__(self, k, v)


def none_sol(extra=True):
    d = {'min': None, 'argmin': None}
    if extra:
        d.update({'active_set': None, 'multiplier_inequality': None, 'multiplier_equality': None})
    return Sol(d)


def vecs(x):
    return [Sym.of(v) for v in N.raw(x).ravel()]


def _solve_frac(cols, rhs, n):
    """unique y with sum y_k cols[k] = rhs (Fractions), None if none or not unique."""
    k = len(cols)
    M = [[cols[j][i] for j in range(k)] + [rhs[i]] for i in range(n)]
    r = 0
    for c in range(k):
        p = next((i for i in range(r, n) if M[i][c] != 0), None)
        if p is None:
            return None
        M[r], M[p] = M[p], M[r]
        q = M[r][c]
        M[r] = [x / q for x in M[r]]
        for i in range(n):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    if any(M[i][k] != 0 for i in range(r, n)):
        return None
    return [M[i][k] for i in range(k)]


def dual_data(rows, f, n):
    """(extreme rays of {y>=0: rows'y=0}, vertices of {y>=0: rows'y=-f})."""
    key = (tuple(map(tuple, rows)), tuple(f))
    got = _cache.get(key)
    if got is not None:
        return got
    m = len(rows)
    verts = set()
    target = [-x for x in f]
    if all(x == 0 for x in target):
        verts.add(tuple([Fraction(0)] * m))
    for k in range(1, min(m, n) + 1):
        for sub in combinations(range(m), k):
            y = _solve_frac([rows[i] for i in sub], target, n)
            if y is not None and all(t > 0 for t in y):
                full = [Fraction(0)] * m
                for i, t in zip(sub, y):
                    full[i] = t
                verts.add(tuple(full))
    rays = rays_of(rows, n)
    got = (rays, sorted(verts))
    _cache[key] = got
    return got


def rays_of(rows, n):
    key = ('rays', tuple(map(tuple, rows)))
    got = _cache.get(key)
    if got is not None:
        return got
    m = len(rows)
    rays = set()
    # minimal supports: one row expressed by independent others, normalised to sum 1
    for i in range(m):
        if all(x == 0 for x in rows[i]):
            r = [Fraction(0)] * m
            r[i] = Fraction(1)
            rays.add(tuple(r))
    for k in range(1, min(m - 1, n) + 1):
        for sub in combinations(range(m), k):
            for i in range(m):
                if i in sub or i < sub[0]:
                    continue
                # y_i = 1: sum_{sub} y_j rows_j = -rows_i
                y = _solve_frac([rows[j] for j in sub], [-x for x in rows[i]], n)
                if y is not None and all(t > 0 for t in y):
                    tot = 1 + sum(y)
                    full = [Fraction(0)] * m
                    full[i] = Fraction(1) / tot
                    for j, t in zip(sub, y):
                        full[j] = t / tot
                    rays.add(tuple(full))
    got = sorted(rays)
    _cache[key] = got
    return got


def lin(row, rhs):
    acc = ZERO
    for y, b in zip(row, rhs):
        if y:
            acc = acc + Sym.of(y) * b
    return acc


def setup(f, A, b, C, d):
    if (C is None) != (d is None):
        raise ValueError('missing C or d.')
    A_ = N.raw(A)
    n = A_.shape[1]
    rows = N.mat(A_)
    rhs = vecs(b)
    if len(rhs) != len(rows) or len(f) != n:
        raise ValueError('shapes not aligned in the program data')
    eqs, eqr = [], []
    if C is not None:
        C_ = N.raw(C)
        if C_.shape[0] and C_.shape[1] != n:
            raise ValueError('shapes not aligned in the program data')
        eqs = N.mat(C_) if C_.shape[0] else []
        eqr = vecs(d)
        if len(eqs) != len(eqr):
            raise ValueError('shapes not aligned in the program data')
    allrows = rows + eqs + [[-x for x in r] for r in eqs]
    allrhs = rhs + eqr + [-x for x in eqr]
    return n, rows, rhs, eqs, eqr, allrows, allrhs


def frac(M):
    return [[Fraction(x.const) for x in r] for r in M]


def feasible_cond(allrows, allrhs, n):
    return and_(*[cmp0(lin(r, allrhs), 'ge') for r in rays_of(frac(allrows), n)])


def decide(cond):
    if isinstance(cond, B):
        return bool(cond)
    return bool(cond)


def violated_by(p, rows, rhs, eqs, eqr):
    return or_(*([cmp0(L.dotv(r, p) - h, 'gt') for r, h in zip(rows, rhs)] +
                 [cmp0(L.dotv(r, p) - h, 'ne') for r, h in zip(eqs, eqr)]))


def infeasible_certificate(n, allrows, allrhs):
    """symbolic rows: Farkas multipliers as existential witnesses."""
    E = S.E
    y = [E.fresh('fk') for _ in allrows]
    E.add(and_(*[cmp0(v, 'ge') for v in y]))
    for j in range(n):
        E.add(cmp0(L.dotv(y, [r[j] for r in allrows]), 'eq'))
    E.add(cmp0(L.dotv(y, allrhs) + 1, 'eq'))


def points(n):
    return [p for p in S.E.opt.get('points', []) if len(p) == n]


def linear_program(f, A, b, C=None, d=None):
    E = S.E
    E.ncalls += 1
    if E.ncalls > E.opt.get('max_calls', 20000):
        raise Runaway('more than %d linear programs' % (E.ncalls - 1))
    f = vecs(f)
    n, rows, rhs, eqs, eqr, allrows, allrhs = setup(f, A, b, C, d)
    kk = ('lp', tuple(x.key() for x in f), tuple(x.key() for r in allrows for x in r),
          tuple(x.key() for x in allrhs), len(rows))
    got = E.memo.get(kk)
    if got is None:
        got = E.memo[kk] = _lp(E, f, n, rows, rhs, eqs, eqr, allrows, allrhs)
        E.calls.append(('lp', f, rows, rhs, eqs, eqr, got))
    if got is None or got[0] is None:
        return none_sol()
    x, v, lam, mu = got
    m = len(rows)

    def act():
        l = lam()
        return sorted(i for i in range(m) if bool(l[i] > 0))
    lazy = {'argmin': lambda: N.asym(x())} if callable(x) else {}
    return Sol({'min': v, 'argmin': None if lazy else N.asym(x), 'active_set': None, 'multiplier_inequality': None,
                'multiplier_equality': None},
               {**lazy, 'active_set': act, 'multiplier_inequality': lambda: N.asym(lam()),
                'multiplier_equality': lambda: N.asym(mu()) if eqs else None})


def _lp(E, f, n, rows, rhs, eqs, eqr, allrows, allrhs):
    pts = points(n)
    if L.const(allrows) and all(c.is_const for c in f) and all(h.is_const for h in allrhs):
        return const_lp(E, f, n, rows, rhs, eqs, eqr, allrows, allrhs)
    if L.const(allrows) and all(c.is_const for c in f):
        rays, verts = dual_data(frac(allrows), [Fraction(c.const) for c in f], n)
        feas = and_(*[cmp0(lin(r, allrhs), 'ge') for r in rays])
        if not decide(feas):
            return (None, 'infeasible')
        if not verts:
            return (None, 'unbounded')
        if E.opt.get('lp_split'):
            return split_vertex(E, f, frac(allrows), allrhs, verts, n, rows, rhs, eqs)
        x = [E.fresh('lpx') for _ in range(n)]
        for r, h in zip(rows, rhs):
            E.add(cmp0(L.dotv(r, x) - h, 'le'))
        for r, h in zip(eqs, eqr):
            E.add(cmp0(L.dotv(r, x) - h, 'eq'))
        v = L.dotv(f, x)
        E.add(or_(*[cmp0(v + lin(y, allrhs), 'eq') for y in verts]))
        for y in verts:
            E.add(cmp0(v + lin(y, allrhs), 'ge'))
    else:
        k = E.choose(3)
        if k == 1:
            infeasible_certificate(n, allrows, allrhs)
            for p in pts:
                E.add(violated_by(p, rows, rhs, eqs, eqr))
            return (None, 'infeasible')
        x = [E.fresh('lpx') for _ in range(n)]
        for r, h in zip(rows, rhs):
            E.add(cmp0(L.dotv(r, x) - h, 'le'))
        for r, h in zip(eqs, eqr):
            E.add(cmp0(L.dotv(r, x) - h, 'eq'))
        if k == 2:
            t = [E.fresh('ray') for _ in range(n)]
            for r in rows:
                E.add(cmp0(L.dotv(r, t), 'le'))
            for r in eqs:
                E.add(cmp0(L.dotv(r, t), 'eq'))
            E.add(cmp0(L.dotv(f, t) + 1, 'eq'))
            return (None, 'unbounded')
        v = L.dotv(f, x)
        for p in pts:
            E.add(or_(violated_by(p, rows, rhs, eqs, eqr), cmp0(L.dotv(f, p) - v, 'ge')))
    d = lp_duals(E, f, x, n, rows, rhs, eqs)
    if not (L.const(allrows) and all(c.is_const for c in f)):
        d[0]()
    return (x, v) + d


def lp_witness(f, A, b, C=None, d=None, **kw):
    """a feasible and bounded program has an optimal primal-dual pair; as points of the least-squares problem the code sets up."""
    f_ = vecs(f)
    n, rows, rhs, eqs, eqr, allrows, allrhs = setup(f_, A, b, C, d)
    if not (L.const(allrows) and all(c.is_const for c in f_)):
        return []
    ref = linear_program(f, A, b, C, d)
    if ref['min'] is None:
        return []
    x = [Sym.of(t) for t in ref['argmin']]
    slack = [h - L.dotv(r, x) for r, h in zip(rows, rhs)] + [ZERO] * (2 * len(eqs))
    duals = dual_data(frac(allrows), [Fraction(t.const) for t in f_], n)[1]

    def wit(y, flip):
        def w(size):
            ys = [Sym.of(t) for t in y]
            p = slack + ys if flip else ys + slack
            return p if len(p) == size else None
        return w
    return [wit(y, fl) for y in duals for fl in (False, True)]


def solve_const(rows, rhs, f, n):
    """exact optimum of a program without symbolic data: ('infeasible' | 'unbounded', None, None) or ('optimal', point, unique)."""
    key = ('uv', tuple(map(tuple, rows)), tuple(rhs), tuple(f))
    if key in _cache:
        return _cache[key]
    from .z3load import z3
    x = [z3.Real('x%d' % i) for i in range(n)]
    z = lambda q: z3.Q(q.numerator, q.denominator)
    lin_ = lambda r, v: z3.Sum([z(a) * t for a, t in zip(r, v) if a] + [z3.RealVal(0)])
    o = z3.Optimize()
    for r, h in zip(rows, rhs):
        o.add(lin_(r, x) <= z(h))
    h = o.minimize(lin_(f, x))
    st = o.check()
    if st == z3.unsat:
        got = ('infeasible', None, None)
    elif st != z3.sat:
        raise Unsupported('optimiser gave no answer')
    elif 'oo' in str(o.lower(h)):
        got = ('unbounded', None, None)
    else:
        m = o.model()
        pt = [m.eval(t, model_completion=True) for t in x]
        pt = [Fraction(t.numerator_as_long(), t.denominator_as_long()) for t in pt]
        best = sum(a * b for a, b in zip(f, pt))
        s = z3.Solver()
        for r, h in zip(rows, rhs):
            s.add(lin_(r, x) <= z(h))
        s.push()
        s.add(lin_(f, x) < z(best))
        assert s.check() == z3.unsat
        s.pop()
        s.add(lin_(f, x) <= z(best), z3.Or([t != z(q) for t, q in zip(x, pt)]))
        got = ('optimal', pt, s.check() == z3.unsat)
    _cache[key] = got
    return got


def const_lp(E, f, n, rows, rhs, eqs, eqr, allrows, allrhs):
    """no symbolic data: the optimum is computed exactly; a minimiser that is not unique stays any point of the optimal face."""
    R, H, F = frac(allrows), [Fraction(h.const) for h in allrhs], [Fraction(c.const) for c in f]
    st, pt, unique = solve_const(R, H, F, n)
    if st != 'optimal':
        return (None, st)
    v = Sym.of(sum((a * b for a, b in zip(F, pt)), Fraction(0)))
    cell, d = [], []

    def x():
        if cell:
            return cell[0]
        if unique:
            cell.append([Sym.of(t) for t in pt])
        elif E.opt.get('lp_split'):
            vs = face_vertices(R, H, F, Fraction(v.const), n)
            cell.append([Sym.of(t) for t in vs[pick(E, len(vs))]])
        else:
            y = [E.fresh('lpx') for _ in range(n)]
            for r, h in zip(rows, rhs):
                E.add(cmp0(L.dotv(r, y) - h, 'le'))
            for r, h in zip(eqs, eqr):
                E.add(cmp0(L.dotv(r, y) - h, 'eq'))
            E.add(cmp0(L.dotv(f, y) - v, 'eq'))
            cell.append(y)
        return cell[0]

    def duals():
        if not d:
            d.append(lp_duals(E, f, x(), n, rows, rhs, eqs))
        return d[0]
    return (x, v, lambda: duals()[0](), lambda: duals()[1]())


def pick(E, k):
    return 0 if E.opt.get('lp_split') == 'first' else E.choose(k)


def face_vertices(R, H, F, v, n):
    key = ('face', tuple(map(tuple, R)), tuple(H), tuple(F))
    if key in _cache:
        return _cache[key]
    out = []
    for sub in combinations(range(len(R)), n):
        p = _solve_frac([[R[i][j] for i in sub] for j in range(n)], [H[i] for i in sub], n)
        if p is None or p in out:
            continue
        if sum(a * b for a, b in zip(F, p)) == v and all(sum(a * b for a, b in zip(r, p)) <= h for r, h in zip(R, H)):
            out.append(p)
    if not out:
        raise Unsupported('optimal face without vertices')
    _cache[key] = out
    return out


def split_vertex(E, f, allrows, allrhs, verts, n, rows, rhs, eqs):
    """branch on the optimal dual vertex and, if the minimiser is not unique, on the optimal vertex."""
    vals = [lin(y, allrhs) for y in verts]
    for k, y in enumerate(verts):
        best = and_(*[cmp0(vals[k] - v, 'le') for j, v in enumerate(vals) if j != k])
        if k == len(verts) - 1 or decide(best):
            break
    v = -vals[k]
    cell = []

    def basic(sub):
        I = L.inv([[Sym.of(t) for t in allrows[i]] for i in sub])
        return [L.dotv(r, [allrhs[i] for i in sub]) for r in I]

    def x():
        if not cell:
            sub = [i for i in range(len(allrows)) if y[i]]
            if len(sub) == n:
                cell.append(basic(sub))
            else:
                pts = []
                for more in combinations([i for i in range(len(allrows)) if i not in sub], n - len(sub)):
                    try:
                        p = basic(list(sub) + list(more))
                    except L.LinAlgSingular:
                        continue
                    if any(all(not (a - b).num for a, b in zip(p, q)) for q in pts):
                        continue
                    if decide(and_(*[cmp0(L.dotv([Sym.of(t) for t in r], p) - h, 'le') for r, h in zip(allrows, allrhs)])):
                        pts.append(p)
                if not pts:
                    raise Unsupported('optimal face without vertices')
                cell.append(pts[pick(E, len(pts))])
        return cell[0]
    d = []

    def duals():
        if not d:
            d.append(lp_duals(E, f, x(), n, rows, rhs, eqs))
        return d[0]
    return (x, v, lambda: duals()[0](), lambda: duals()[1]())


def lp_duals(E, f, x, n, rows, rhs, eqs):
    cell = []

    def duals():
        if not cell:
            lam = [E.fresh('lam') for _ in rows]
            mu = [E.fresh('mu') for _ in eqs]
            E.add(and_(*[cmp0(z, 'ge') for z in lam]))
            for j in range(n):
                E.add(cmp0(f[j] + L.dotv(lam, [r[j] for r in rows]) + L.dotv(mu, [r[j] for r in eqs]), 'eq'))
            for z, r, h in zip(lam, rows, rhs):
                E.add(or_(cmp0(z, 'eq'), cmp0(L.dotv(r, x) - h, 'eq')))
            cell.append((lam, mu))
        return cell[0]
    return (lambda: duals()[0], lambda: duals()[1])


def quadratic_program(H, f, A, b, C=None, d=None):
    E = S.E
    f = vecs(f)
    n, rows, rhs, eqs, eqr, allrows, allrhs = setup(f, A, b, C, d)
    Hm = N.mat(H)
    kk = ('qp', tuple(x.key() for r in Hm for x in r), tuple(x.key() for x in f),
          tuple(x.key() for r in allrows for x in r), tuple(x.key() for x in allrhs), len(rows))
    got = E.memo.get(kk)
    if got is None:
        got = E.memo[kk] = _qp(E, Hm, f, n, rows, rhs, eqs, eqr, allrows, allrhs)
        E.calls.append(('qp', Hm, f, rows, rhs, eqs, eqr, got))
    if got[0] is None:
        return none_sol()
    x, lam, mu = got
    m = len(rows)
    if E.opt.get('qp_points'):
        # the minimiser is not beaten by any registered point
        for p in points(n):
            k2 = ('qpp', kk, tuple(v.key() for v in p))
            if k2 not in E.memo:
                E.memo[k2] = True
                E.add(or_(violated_by(p, rows, rhs, eqs, eqr), cmp0(qcost(Hm, f, p) - qcost(Hm, f, x), 'ge')))

    def act():
        return sorted(i for i in range(m) if bool(lam[i] > 0))
    return Sol({'min': None, 'argmin': N.asym(x), 'active_set': None,
                'multiplier_inequality': N.asym(lam), 'multiplier_equality': N.asym(mu) if eqs else None},
               {'active_set': act, 'min': lambda: qcost(Hm, f, x)})


def qcost(H, f, x):
    n = len(x)
    acc = L.dotv(f, x)
    for i in range(n):
        for j in range(n):
            if H[i][j].num:
                acc = acc + H[i][j] * x[i] * x[j] / 2
    return acc


def const_qp(E, H, f, n, rows, rhs, eqs, eqr):
    """no symbolic data: the minimiser (unique, H is positive definite) is computed exactly; multipliers that are not unique stay any admissible ones."""
    key = ('cqp', tuple(map(tuple, H)), tuple(f), tuple(map(tuple, rows)), tuple(rhs), tuple(map(tuple, eqs)), tuple(eqr))
    if key not in _cache:
        from .z3load import z3
        z = lambda q: z3.Q(q.numerator, q.denominator)
        dot = lambda r, v: z3.Sum([z(a) * t for a, t in zip(r, v) if a] + [z3.RealVal(0)])
        x, lam, mu = ([z3.Real('%s%d' % (s, i)) for i in range(k)] for s, k in (('x', n), ('l', len(rows)), ('m', len(eqs))))
        s = z3.Solver()
        s.add(*[dot(r, x) <= z(h) for r, h in zip(rows, rhs)])
        s.add(*[dot(r, x) == z(h) for r, h in zip(eqs, eqr)])
        st = s.check()
        got = None
        if st == z3.sat:
            for j in range(n):
                s.add(z(f[j]) + dot(H[j], x) + dot([r[j] for r in rows], lam) + dot([r[j] for r in eqs], mu) == 0)
            s.add(*[t >= 0 for t in lam])
            s.add(*[z3.Or(t == 0, dot(r, x) == z(h)) for t, r, h in zip(lam, rows, rhs)])
            st = s.check()
            if st == z3.sat:
                m = s.model()
                val = lambda t: (lambda v: Fraction(v.numerator_as_long(), v.denominator_as_long()))(m.eval(t, model_completion=True))
                X = [val(t) for t in x]
                act = [r for r, h in zip(rows, rhs) if sum(a * b for a, b in zip(r, X)) == h] + list(eqs)
                got = (X, [val(t) for t in lam], [val(t) for t in mu], L.frac_rank(act) == len(act))
        _cache[key] = (str(st), got)
    return _cache[key]


def _qp(E, H, f, n, rows, rhs, eqs, eqr, allrows, allrhs):
    pts = points(n)
    if L.const(allrows) and L.const(H) and L.const([f, rhs, eqr]):
        q = lambda M: [[Fraction(t.const) for t in r] for r in M]
        st, got = const_qp(E, q(H), q([f])[0], n, q(rows), q([rhs])[0], q(eqs), q([eqr])[0])
        if st == 'unsat' and got is None:
            return (None, 'infeasible')
        if got is not None and got[3]:
            return tuple([Sym.of(t) for t in v] for v in got[:3])
    if L.const(allrows) and sum(comb(len(allrows), k) for k in range(1, n + 1)) * len(allrows) < 300000:
        if not decide(feasible_cond(allrows, allrhs, n)):
            return (None, 'infeasible')
    else:
        if E.choose(2) == 1:
            infeasible_certificate(n, allrows, allrhs)
            for p in pts:
                E.add(violated_by(p, rows, rhs, eqs, eqr))
            return (None, 'infeasible')
    x = [E.fresh('qpx') for _ in range(n)]
    lam = [E.fresh('lam') for _ in rows]
    mu = [E.fresh('mu') for _ in eqs]
    for j in range(n):
        E.add(cmp0(f[j] + L.dotv(H[j], x) + L.dotv(lam, [r[j] for r in rows]) + L.dotv(mu, [r[j] for r in eqs]), 'eq'))
    for z, r, h in zip(lam, rows, rhs):
        E.add(cmp0(L.dotv(r, x) - h, 'le'))
        E.add(cmp0(z, 'ge'))
        E.add(or_(cmp0(z, 'eq'), cmp0(L.dotv(r, x) - h, 'eq')))
    for r, h in zip(eqs, eqr):
        E.add(cmp0(L.dotv(r, x) - h, 'eq'))
    return (x, lam, mu)


def mixed_integer_quadratic_program(nc, H, f, A, b, C=None, d=None, **kw):
    """optimal: a feasible point with binaries in {0,1}, not beaten by any registered point;
    infeasible: no registered point is feasible."""
    E = S.E
    f = vecs(f)
    n, rows, rhs, eqs, eqr, allrows, allrhs = setup(f, A, b, C, d)
    Hm = N.mat(H)
    nc = int(nc)
    pts = points(n)

    def bad(p):
        frac_ = or_(*[and_(cmp0(p[i], 'ne'), cmp0(p[i] - 1, 'ne')) for i in range(nc, n)])
        return or_(violated_by(p, rows, rhs, eqs, eqr), frac_)
    if E.choose(2) == 1:
        for p in pts:
            E.add(bad(p))
        E.calls.append(('miqp', nc, Hm, f, rows, rhs, eqs, eqr, (None, 'infeasible')))
        return Sol({'min': None, 'argmin': None})
    x = [E.fresh('mi') for _ in range(n)]
    for i in range(nc, n):
        if E.choose(2):
            x[i] = ONE
        else:
            x[i] = ZERO
    ok = and_(*([cmp0(L.dotv(r, x) - h, 'le') for r, h in zip(rows, rhs)] +
                [cmp0(L.dotv(r, x) - h, 'eq') for r, h in zip(eqs, eqr)]))
    E.assume(ok, 'fact', check=True)
    v = qcost(Hm, f, x)
    for p in pts:
        E.add(or_(bad(p), cmp0(qcost(Hm, f, p) - v, 'ge')))
    E.calls.append(('miqp', nc, Hm, f, rows, rhs, eqs, eqr, (x, v)))
    return Sol({'min': v, 'argmin': N.asym(x)})
