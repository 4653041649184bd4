"""Harness contexts: the same harness runs symbolically and, for replay, on the real code."""
import math
import time
from fractions import Fraction

import numpy as rnp

from . import sym as S
from . import symnp as N
from . import loader
from .sym import Sym, B, cmp0, and_, or_, not_
from .engine import PathEnd, NonFinite

T, U, F = 1, 0, -1

SHORT = {
    'geom': 'pympc.geometry.polyhedron', 'gutils': 'pympc.geometry.utils',
    'dts': 'pympc.dynamics.discrete_time_systems', 'disc': 'pympc.dynamics.discretization_methods',
    'dutils': 'pympc.dynamics.utils', 'prog': 'pympc.optimization.programs',
    'pnnls': 'pympc.optimization.solvers.pnnls', 'gurobi': 'pympc.optimization.solvers.gurobi',
    'pp': 'pympc.optimization.parametric_programs', 'ctl': 'pympc.control.controllers',
}


class Result(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or (Exception,))


class Base(object):
    def mods(self, name):
        raise NotImplementedError

    def __getattr__(self, n):
        if n in SHORT:
            return self.mods(SHORT[n])
        raise AttributeError(n)

    def vec(self, name, n):
        return self.arr([self.real('%s[%d]' % (name, i)) for i in range(n)], (n,))

    def mat(self, name, m, n):
        return self.arr([[self.real('%s[%d,%d]' % (name, i, j)) for j in range(n)] for i in range(m)], (m, n))

    def sym_mat(self, name, n):
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = self.real('%s[%d,%d]' % (name, i, j))
        return self.arr(M, (n, n))

    def call(self, fn, *a, **k):
        try:
            return Result(fn(*a, **k))
        except (PathEnd, S.Unsupported):
            raise
        except NonFinite as e:
            raise
        except Exception as e:
            return Result(exc=e)

    def limit_calls(self, n):
        """symbolic only: more linear programs than that on one path count as an endless loop (the replay decides)."""
        if self.symbolic:
            self.E.opt['max_calls'] = n

    def skip(self):
        """leave this path to another harness."""
        raise PathEnd() if self.symbolic else Discard()

    def box(self, x, lo, hi):
        self.assume(self.and_(self.ge(x, lo), self.le(x, hi)))

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def iff(self, p, q):
        return self.and_(self.implies(p, q), self.implies(q, p))

    def implies(self, p, q):
        return self.or_(self.not_(p), q)


class SymCtx(Base):
    symbolic = True

    def __init__(self, eng, cfg, report):
        self.E = eng
        self.cfg = cfg
        self.report = report
        eng.opt = {}
        if isinstance(cfg, dict) and cfg.get('real'):
            eng.opt['stub'] = False     # pympc's own LP/QP solvers run symbolically too, down to nnls
        self.np = loader.world().shims['numpy']

    def mods(self, name):
        return loader.world().load(name)

    # inputs
    def real(self, name):
        return self.E.new_var(name, True)

    def arr(self, x, shape=None):
        a = N.asym(x)
        return a.reshape(shape) if shape is not None else a

    def ints(self, x):
        """constants in an array of integer dtype."""
        return N.asym(x).view(N.IntSymArray)

    def const(self, v):
        return Sym.of(v)

    def choice(self, name, opts):
        i = self.E.choose(len(opts))
        self.E.choices.append((name, i))
        return opts[i]

    def sp(self, name):
        """(sympy coefficient, its value)."""
        import sympy
        v = self.real(name)
        g = sympy.Symbol('k_' + name.replace('[', '_').replace(']', '').replace(',', '_'))
        self.E.sympy_map[g] = v
        return g, v

    def sqrt(self, v):
        return self.E.sym_sqrt(Sym.of(v))

    def exp_phi(self, A):
        from . import symsp
        X, F = symsp.exp_phi(N.mat(A))
        return N.from_mat(X, A.shape), N.from_mat(F, A.shape)

    # oracles (constant A and C)
    def feasible(self, A, b, C=None, d=None):
        from . import stubs
        n, rows, rhs, eqs, eqr, allrows, allrhs = stubs.setup([0] * A.shape[1], A, b, C, d)
        return stubs.feasible_cond(allrows, allrhs, n)

    def sup(self, f, A, b, C=None, d=None):
        """supremum of f'x over a nonempty set with constant A, C, f: (False, None) if unbounded, else (True, predicate)
        where predicate(op, t) is the condition `sup op t`."""
        from . import stubs
        f = [Sym.of(v) for v in N.raw(f).ravel()]
        n, rows, rhs, eqs, eqr, allrows, allrhs = stubs.setup(f, A, b, C, d)
        rays, verts = stubs.dual_data(stubs.frac(allrows), [-Fraction(v.const) for v in f], n)
        if not verts:
            return Sup(self, None)
        return Sup(self, [stubs.lin(y, allrhs) for y in verts])

    # conditions
    def _pairs(self, a, b):
        a = N.raw(a) if isinstance(a, (rnp.ndarray, list, tuple)) else a
        b = N.raw(b) if isinstance(b, (rnp.ndarray, list, tuple)) else b
        aa = a if isinstance(a, rnp.ndarray) else N.obj0(a)
        bb = b if isinstance(b, rnp.ndarray) else N.obj0(b)
        if aa.shape != () and bb.shape != () and aa.shape != bb.shape:
            return None
        aa, bb = rnp.broadcast_arrays(aa, bb)
        return [(Sym.of(x), Sym.of(y)) for x, y in zip(aa.ravel(), bb.ravel())]

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        ps = self._pairs(a, b)
        if ps is None:
            return False
        return and_(*[B('pair', 'eq', p) for p in ps])

    def le(self, a, b):
        ps = self._pairs(a, b)
        if ps is None:
            return False
        return and_(*[cmp0(x - y, 'le') for x, y in ps])

    def lt(self, a, b):
        ps = self._pairs(a, b)
        if ps is None:
            return False
        return and_(*[cmp0(x - y, 'lt') for x, y in ps])

    def and_(self, *xs):
        return and_(*[self.cond(x) for x in xs])

    def or_(self, *xs):
        return or_(*[self.cond(x) for x in xs])

    def not_(self, x):
        return not_(self.cond(x))

    def cond(self, x):
        if isinstance(x, (B, bool)):
            return x
        if isinstance(x, rnp.ndarray):
            return N.f_all(x)
        return bool(x)

    def truth(self, c):
        """fork on a condition inside the harness."""
        return bool(self.cond(c))

    def assume(self, c):
        c = self.cond(c)
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.E.assume(c, 'assume', check=True)

    def fact(self, c):
        """theorem instance added without proof obligation (each is documented where used)."""
        self.E.add(self.cond(c), 'fact')

    def check(self, c, label, core=True):
        self.report.obligation(self, self.cond(c), label, core)

    def fail(self, label):
        self.check(False, label)

    def points(self, *ps):
        self.E.opt.setdefault('points', []).extend([[Sym.of(v) for v in N.raw(p).ravel()] for p in ps])

    def stub(self, on, **kw):
        self.E.opt['stub'] = on
        self.E.opt.update(kw)

    def opts(self, **kw):
        self.E.opt.update(kw)

    def conc(self, fn):
        """run only in the concrete replay."""


class Sup(object):
    """min over the dual vertices (None: +infinity)."""

    def __init__(self, c, vals):
        self.c, self.vals = c, vals

    @property
    def finite(self):
        return self.vals is not None

    def gt(self, t):
        return True if self.vals is None else and_(*[cmp0(Sym.of(t) - v, 'lt') for v in self.vals])

    def le(self, t):
        return False if self.vals is None else or_(*[cmp0(v - Sym.of(t), 'le') for v in self.vals])


class ConcSup(object):
    def __init__(self, c, val):
        self.c, self.val = c, val

    @property
    def finite(self):
        return self.val is not None

    def gt(self, t):
        return T if self.val is None else self.c.gt(self.val, t)

    def le(self, t):
        return F if self.val is None else self.c.le(self.val, t)


class Discard(Exception):
    pass


class ReplayViolation(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class ConcCtx(Base):
    symbolic = False

    def __init__(self, cfg, vals, choices, tol=1e-6):
        self.cfg = cfg
        self.vals = vals
        self.choices = list(choices)
        self.tol = tol
        self.np = rnp
        self.checked = []

    def mods(self, name):
        return loader.plain(name)

    def real(self, name):
        return rnp.float64(float(self.vals.get(name, 0)))

    def arr(self, x, shape=None):
        a = rnp.array(_floats(x), dtype=float)
        return a.reshape(shape) if shape is not None else a

    def ints(self, x):
        return rnp.array(x, dtype=int)

    def const(self, v):
        return rnp.float64(float(v))

    def choice(self, name, opts):
        n, i = self.choices.pop(0)
        return opts[i]

    def sp(self, name):
        v = self.real(name)
        return float(v), v

    def sqrt(self, v):
        return rnp.sqrt(v)

    def exp_phi(self, A):
        from scipy.linalg import expm
        n = A.shape[0]
        M = expm(rnp.vstack((rnp.hstack((A, rnp.eye(n))), rnp.zeros((n, 2 * n)))))
        return M[:n, :n], M[:n, n:]

    def feasible(self, A, b, C=None, d=None):
        from scipy.optimize import linprog
        n = A.shape[1]
        C = rnp.zeros((0, n)) if C is None else C
        d = rnp.zeros(0) if d is None else d
        M = rnp.vstack((A, C, -C))
        h = rnp.concatenate((b, d, -d))
        one = rnp.ones((M.shape[0], 1))
        r = linprog([0] * n + [1], rnp.hstack((M, -one)), h, bounds=[(None, None)] * n + [(-1, None)])
        if r.status == 0 and r.x[-1] > 10 * self.tol:
            return F
        r = linprog([0] * n + [-1], rnp.hstack((A, rnp.ones((A.shape[0], 1)))), b,
                    rnp.hstack((C, rnp.zeros((C.shape[0], 1)))) if C.shape[0] else None, d if C.shape[0] else None,
                    bounds=[(None, None)] * n + [(None, 1)])
        return T if r.status == 0 and r.x[-1] > 10 * self.tol else U

    def sup(self, f, A, b, C=None, d=None):
        from scipy.optimize import linprog
        n = A.shape[1]
        k = C is not None and C.shape[0] > 0
        r = linprog(-rnp.asarray(f, dtype=float), A if A.shape[0] else None, b if A.shape[0] else None, C if k else None, d if k else None, bounds=[(None, None)] * n)
        if r.status == 3:
            return ConcSup(self, None)
        if r.status != 0:
            raise Discard()
        return ConcSup(self, -r.fun)

    def _d(self, a, b):
        a, b = rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float)
        if a.shape != () and b.shape != () and a.shape != b.shape:
            return None, None
        s = self.tol * (1 + rnp.maximum(rnp.abs(a), rnp.abs(b)))
        return (a - b).ravel() if (a - b).shape else rnp.array([a - b]), rnp.broadcast_to(s, (a - b).shape).ravel() if (a - b).shape else rnp.array([s])

    def eq(self, a, b):
        if a is None or b is None:
            return T if a is b else F
        d, s = self._d(a, b)
        if d is None:
            return F
        if d.size == 0:
            return T
        if rnp.isnan(d).any():
            return F
        if (rnp.abs(d) > 10 * s).any():
            return F
        return T if (rnp.abs(d) <= s).all() else U

    def le(self, a, b):
        d, s = self._d(a, b)
        if d is None:
            return F
        if d.size == 0:
            return T
        if rnp.isnan(d).any() or (d > s).any():
            return F
        return T if (d <= -s).all() else U

    lt = le

    def cond(self, x):
        if isinstance(x, (bool, rnp.bool_)):
            return T if x else F
        if isinstance(x, rnp.ndarray):
            return T if x.all() else F
        if isinstance(x, int):
            return x
        return T if x else F

    def and_(self, *xs):
        return min([T] + [self.cond(x) for x in xs])

    def or_(self, *xs):
        return max([F] + [self.cond(x) for x in xs])

    def not_(self, x):
        return -self.cond(x)

    def truth(self, c):
        return self.cond(c) >= U

    def assume(self, c):
        if self.cond(c) == F:
            raise Discard()

    def fact(self, c):
        pass

    def check(self, c, label, core=True):
        self.checked.append(label)
        if self.cond(c) == F:
            raise ReplayViolation(label)

    def fail(self, label):
        raise ReplayViolation(label)

    def points(self, *ps):
        pass

    def stub(self, on, **kw):
        pass

    def opts(self, **kw):
        pass

    def conc(self, fn):
        return fn()


def _floats(x):
    if isinstance(x, (list, tuple)):
        return [_floats(y) for y in x]
    if isinstance(x, rnp.ndarray):
        return x.astype(float)
    return float(x)
