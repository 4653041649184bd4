"""Stand-in for gurobipy: builds the model from symbolic coefficients; `optimize` answers by contract.

Continuous programs: OPTIMAL with a point, constraint duals Pi and reduced costs that satisfy the optimality conditions
of the model that was built (necessary and sufficient for convex programs), or INFEASIBLE / INF_OR_UNBD / UNBOUNDED.
INFEASIBLE: no registered point satisfies the model; UNBOUNDED: a ray of the model along which the cost decreases
(INF_OR_UNBD: one of the two). Mixed-integer programs: OPTIMAL with a feasible point that no registered point beats.
Registered points are given in the order of the variables of the program.
"""
import types

from . import sym as S
from . import symnp as N
from .sym import Sym, Unsupported, cmp0, and_, or_, ZERO, ONE

INF = 1e100


class GurobiError(Exception):
    pass


class _Status(object):
    LOADED, OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 1, 2, 3, 4, 5
    CUTOFF, ITERATION_LIMIT, NODE_LIMIT, TIME_LIMIT, SOLUTION_LIMIT, INTERRUPTED, NUMERIC, SUBOPTIMAL = 6, 7, 8, 9, 10, 11, 12, 13


class GRB(object):
    Status = status = _Status
    for _k, _v in list(vars(_Status).items()):
        if _k.isupper():
            locals()[_k] = _v
    INFINITY = INF
    BINARY, CONTINUOUS, INTEGER = 'B', 'C', 'I'
    LESS_EQUAL, GREATER_EQUAL, EQUAL = '<', '>', '='
    MINIMIZE, MAXIMIZE = 1, -1

    class Attr(object):
        def __getattr__(self, n):
            return n

    class Param(object):
        def __getattr__(self, n):
            return n
    Attr, Param = Attr(), Param()


def num(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, Expr) or isinstance(x, Var):
        return None
    try:
        return Sym.of(x)
    except Exception:
        return None


class Expr(object):
    """quadratic expression: {(): c, (i,): c, (i, j): c} with i <= j."""
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, arg=0, var=None):
        self.m = None
        self.t = {}
        if var is not None:
            cs, vs = (list(arg), list(var)) if not isinstance(var, Var) else ([arg], [var])
            if len(cs) != len(vs):
                raise GurobiError('lists must have the same length')
            for a, v in zip(cs, vs):
                self._acc(v._e(), num(a))
        elif isinstance(arg, (list, tuple)):
            for a, v in arg:
                self._acc(v._e(), num(a))
        else:
            self._acc(ex(arg), ONE)

    def _acc(self, o, k):
        self.m = self.m or o.m
        for key, v in o.t.items():
            w = self.t.get(key, ZERO) + v * k
            if w.num:
                self.t[key] = w
            else:
                self.t.pop(key, None)
        return self

    def _e(self):
        return self

    def copy(self):
        e = type(self)()
        return e._acc(self, ONE)

    def add(self, o, mult=1.0):
        self._acc(ex(o), num(mult))

    def addConstant(self, c):
        self._acc(ex(c), ONE)

    def addTerms(self, cs, v1, v2=None):
        one = isinstance(v1, Var)
        cs, v1 = ([cs], [v1]) if one else (list(cs), list(v1))
        v2 = [v2] if one and v2 is not None else v2
        for k, (a, v) in enumerate(zip(cs, v1)):
            e = v._e()
            if v2 is not None:
                e = e * list(v2)[k]
            self._acc(e, num(a))

    def __add__(self, o):
        o = ex(o)
        if o is None:
            return NotImplemented
        return mk(self)._acc(o, ONE)
    __radd__ = __add__

    def __iadd__(self, o):
        o = ex(o)
        if o is None:
            return NotImplemented
        return mk(self)._acc(o, ONE)

    def __neg__(self):
        return mk()._acc(self, Sym.of(-1))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = ex(o)
        if o is None:
            return NotImplemented
        return mk(self)._acc(o, Sym.of(-1))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        k = num(o)
        if k is not None:
            return mk()._acc(self, k)
        o = ex(o)
        if o is None:
            return NotImplemented
        r = mk()
        r.m = self.m or o.m
        for a, x in self.t.items():
            for b, y in o.t.items():
                key = tuple(sorted(a + b))
                if len(key) > 2:
                    raise GurobiError('Invalid argument to QuadExpr multiplication')
                w = r.t.get(key, ZERO) + x * y
                r.t[key] = w
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mk()._acc(self, ONE / num(o))

    def __le__(self, o):
        return Temp(self - o, '<')

    def __ge__(self, o):
        return Temp(self - o, '>')

    def __eq__(self, o):
        return Temp(self - o, '=')
    __hash__ = None

    def __pow__(self, k):
        if k != 2:
            raise GurobiError('power')
        return self * self

    def size(self):
        return len([k for k in self.t if k])

    def getConstant(self):
        return self.t.get((), ZERO)

    def getValue(self):
        return ev(self, self.m.X)


def mk(e=None):
    r = Expr()
    if e is not None:
        r._acc(e, ONE)
    return r


def ex(o):
    if isinstance(o, Expr):
        return o
    if isinstance(o, Var):
        return o._e()
    k = num(o)
    if k is None:
        return None
    r = Expr.__new__(Expr)
    r.m = None
    r.t = {(): k} if k.num else {}
    return r


def ev(e, x):
    acc = ZERO
    for k, c in e.t.items():
        t = c
        for i in k:
            t = t * x[i]
        acc = acc + t
    return acc


class LinExpr(Expr):
    pass


class QuadExpr(Expr):
    pass


class Temp(object):
    def __init__(self, e, sense):
        self.e, self.sense = e, sense


class Attrs(object):
    """attribute names are case-insensitive, as in gurobipy."""

    def getAttr(self, n):
        f = self._get(n.lower())
        return f

    def setAttr(self, n, v):
        self._set(n.lower(), v)

    def __getattr__(self, n):
        if n.startswith('_') or n in ('dtype', 'shape', 'numerator', 'free_symbols', 'is_const', 'num', 'conjugate', 'ndim', 'size', 'tolist', 'item'):
            raise AttributeError(n)
        return self._get(n.lower())

    def __setattr__(self, n, v):
        if n.startswith('_') or n in self.SLOTS:
            object.__setattr__(self, n, v)
        else:
            self._set(n.lower(), v)


class Var(Attrs):
    SLOTS = ('m', 'i', 'lb', 'ub', 'vt', 'name', 'new')
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, m, i, lb, ub, vt, name=''):
        self.m, self.i, self.lb, self.ub, self.vt, self.name = m, i, lb, ub, vt, name

    def _e(self):
        e = Expr.__new__(Expr)
        e.m = self.m
        e.t = {(self.i,): ONE}
        return e

    def _get(self, n):
        if n == 'x':
            return self.m._sol()[self.i]
        if n == 'varname':
            return self.name
        if n == 'lb':
            return self.lb
        if n == 'ub':
            return self.ub
        if n == 'vtype':
            return self.vt
        if n == 'index':
            return self.i
        if n == 'rc':
            self.m._sol()
            return self.m.RC[self.i]
        raise Unsupported('gurobi variable attribute %s' % n)

    def _set(self, n, v):
        if n == 'vtype':
            self.m.later.append((self, 'vt', v))
        elif n in ('lb', 'ub'):
            self.m.later.append((self, n, v))
        elif n == 'varname':
            object.__setattr__(self, 'name', v)
        elif n == 'start':
            pass
        else:
            raise Unsupported('gurobi variable attribute %s' % n)

    def __add__(self, o):
        return self._e() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._e() - o

    def __rsub__(self, o):
        return (-self._e()) + o

    def __neg__(self):
        return -self._e()

    def __mul__(self, o):
        return self._e() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._e() / o

    def __pow__(self, k):
        return self._e() ** k

    def __le__(self, o):
        return self._e() <= o

    def __ge__(self, o):
        return self._e() >= o

    def __eq__(self, o):
        if isinstance(o, Var) and o is self:
            return True
        return Temp(self._e() - o, '=')

    def __hash__(self):
        return id(self)


class Constr(Attrs):
    SLOTS = ('m', 'e', 'sense', 'name', 'k')

    def __init__(self, m, e, sense, name):
        if any(len(k) > 1 for k in e.t):
            raise Unsupported('quadratic constraint')
        self.m, self.e, self.sense, self.name, self.k = m, e, sense, name, None

    def _get(self, n):
        if n == 'constrname':
            return self.name
        if n == 'sense':
            return self.sense
        if n == 'rhs':
            return -self.e.t.get((), ZERO)
        self.m._sol()
        if n == 'pi':
            if self.m._mip():
                raise GurobiError("Unable to retrieve attribute 'Pi'")
            return self.m.PI[self.k]
        if n == 'slack':
            return -ev(self.e, self.m.X)
        if n == 'cbasis':
            if self.m._mip() or any(len(k) > 1 for k in self.m.obj.t):
                raise GurobiError("Unable to retrieve attribute 'CBasis'")
            return self.m._basis(self)
        raise Unsupported('gurobi constraint attribute %s' % n)

    def _set(self, n, v):
        raise Unsupported('gurobi constraint attribute %s' % n)


class TupleDict(dict):
    def select(self, *a):
        return list(self.values())

    def prod(self, coeff):
        return quicksum(coeff[k] * v for k, v in self.items() if k in coeff)

    def sum(self, *a):
        return quicksum(self.values())


def quicksum(xs):
    r = mk()
    for x in xs:
        r._acc(ex(x), ONE)
    return r


class Params(object):
    def __init__(self):
        self.__dict__['d'] = {}

    def __setattr__(self, n, v):
        self.d[n] = v

    def __getattr__(self, n):
        return self.d.get(n)


class Env(object):
    def __init__(self, *a, **k):
        pass

    def setParam(self, *a):
        pass

    def start(self):
        pass

    def dispose(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fin(v):
    v = v if isinstance(v, Sym) else v
    if isinstance(v, Sym):
        return True
    return abs(float(v)) < 1e20


class Model(Attrs):
    SLOTS = ('vs', 'newv', 'cs', 'newc', 'obj', 'newobj', 'later', 'Params', 'st', 'X', 'PI', 'RC', 'B', 'V')

    def __init__(self, name='', env=None):
        self.vs, self.newv, self.cs, self.newc = [], [], [], []
        self.obj, self.newobj, self.later = mk(), None, []
        self.Params = Params()
        self.st, self.X, self.PI, self.RC, self.B, self.V = _Status.LOADED, None, None, None, {}, None
        S.E.opt.setdefault('grb_models', []).append(self)

    def addVar(self, lb=0.0, ub=INF, obj=0.0, vtype='C', name='', column=None):
        if obj != 0.0 or column is not None:
            raise Unsupported('addVar with objective')
        v = Var(self, len(self.vs) + len(self.newv), lb, ub, vtype, name)
        self.newv.append(v)
        return v

    def addVars(self, *idx, lb=0.0, ub=INF, obj=0.0, vtype='C', name=''):
        if len(idx) == 1 and isinstance(idx[0], int):
            keys = list(range(idx[0]))
        elif len(idx) == 1:
            keys = list(idx[0])
        else:
            import itertools
            keys = list(itertools.product(*[range(i) if isinstance(i, int) else i for i in idx]))

        def at(a, k, key):
            if isinstance(a, (list, tuple)) or hasattr(a, 'shape') and getattr(a, 'shape', ()) != ():
                if len(a) != len(keys):
                    raise GurobiError('Incorrect length')
                return a[k]
            if isinstance(a, dict):
                return a[key]
            return a
        return TupleDict((key, self.addVar(at(lb, k, key), at(ub, k, key), at(obj, k, key), at(vtype, k, key), '%s[%s]' % (name, key)))
                         for k, key in enumerate(keys))

    def addConstr(self, t, *a, **k):
        name = k.get('name', '')
        if a and isinstance(t, (Expr, Var)) and isinstance(a[0], str) and len(a) > 1:
            t, name = Temp(ex(t) - a[1], a[0][0]), (a[2] if len(a) > 2 else name)
        elif a:
            name = a[0]
        if not isinstance(t, Temp):
            raise GurobiError('Constraint has no bool value (are you trying "lb <= expr <= ub"?)')
        c = Constr(self, t.e, t.sense, name)
        self.newc.append(c)
        return c

    addLConstr = addConstr

    def addConstrs(self, gen, name=''):
        out = TupleDict()
        for i, t in enumerate(gen):
            out[i] = self.addConstr(t, name='%s[%d]' % (name, i))
        return out

    def setObjective(self, e, sense=None):
        e = ex(e)
        if sense in (None, 1):
            self.newobj = e.copy()
        else:
            raise Unsupported('maximisation')

    def getObjective(self):
        return self.obj.copy()

    def update(self):
        self.vs += self.newv
        self.cs += self.newc
        self.newv, self.newc = [], []
        for v, n, x in self.later:
            setattr(v, n, x)
            if n == 'vt' and x == 'B':
                v.lb, v.ub = (v.lb if fin(v.lb) and float(v.lb) > 0 else 0.0), (v.ub if fin(v.ub) and float(v.ub) < 1 else 1.0)
        self.later = []
        if self.newobj is not None:
            self.obj, self.newobj = self.newobj, None

    def getVars(self):
        return list(self.vs)

    def getConstrs(self):
        return list(self.cs)

    def getConstrByName(self, n):
        return next((c for c in self.cs if c.name == n), None)

    def getVarByName(self, n):
        return next((v for v in self.vs if v.name == n), None)

    def setParam(self, n, v):
        self.Params.d[n] = v

    def resetParams(self):
        pass

    def dispose(self):
        pass

    def write(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def getAttr(self, n, objs=None):
        n = n.lower()
        if objs is not None:
            if isinstance(objs, dict):
                return TupleDict((k, o.getAttr(n)) for k, o in objs.items())
            return [o.getAttr(n) for o in objs]
        if n in ('x', 'lb', 'ub', 'vtype', 'rc', 'varname'):
            return [v.getAttr(n) for v in self.vs]
        if n in ('pi', 'cbasis', 'slack', 'sense', 'rhs', 'constrname'):
            return [c.getAttr(n) for c in self.cs]
        return self._get(n)

    def _get(self, n):
        if n == 'status':
            return self.st
        if n in ('objval', 'objbound'):
            self._sol()
            return self.V
        if n == 'numvars':
            return len(self.vs)
        if n == 'numconstrs':
            return len(self.cs)
        if n == 'solcount':
            return 1 if self.X is not None else 0
        if n == 'ismip':
            return int(self._mip())
        if n in ('runtime', 'mipgap', 'nodecount', 'itercount'):
            return 0.0
        raise Unsupported('gurobi model attribute %s' % n)

    def _set(self, n, v):
        if n == 'modelsense' and v == 1:
            return
        raise Unsupported('gurobi model attribute %s' % n)

    def _mip(self):
        return any(v.vt != 'C' for v in self.vs)

    def _sol(self):
        if self.X is None:
            raise GurobiError("Unable to retrieve attribute 'x'")
        return self.X

    def _ok(self, p):
        out = []
        for c in self.cs:
            out.append(cmp0(ev(c.e, p), {'<': 'le', '>': 'ge', '=': 'eq'}[c.sense]))
        for v in self.vs:
            if fin(v.lb):
                out.append(cmp0(p[v.i] - Sym.of(v.lb), 'ge'))
            if fin(v.ub):
                out.append(cmp0(p[v.i] - Sym.of(v.ub), 'le'))
            if v.vt == 'B':
                out.append(or_(cmp0(p[v.i], 'eq'), cmp0(p[v.i] - 1, 'eq')))
            elif v.vt != 'C':
                raise Unsupported('integer variables')
        return and_(*out)

    def optimize(self, *a):
        E = S.E
        self.update()
        n = len(self.vs)
        if any(k.lower() in ('timelimit', 'worklimit') and not v > 0 for k, v in self.Params.d.items()):
            self.st = _Status.TIME_LIMIT
            return
        quad = any(len(k) > 1 for k in self.obj.t)
        pts = [p for p in E.opt.get('points', []) if len(p) == n]
        if self._mip():
            kind = ('opt', 'inf')[E.choose(2)]
        elif quad:
            kind = ('opt', 'inf')[E.choose(2)]
        else:
            kind = ('opt', 'inf', 'unb', 'infub')[E.choose(4)]
        if kind == 'infub':
            kind = ('inf', 'unb')[E.choose(2)]
            self.st = _Status.INF_OR_UNBD
        else:
            self.st = {'opt': _Status.OPTIMAL, 'inf': _Status.INFEASIBLE, 'unb': _Status.UNBOUNDED}[kind]
        if kind == 'inf':
            for p in pts:
                E.add(S.not_(self._ok(p)), 'fact')
            return
        if kind == 'unb':
            r = [E.fresh('ray') for _ in range(n)]
            for c in self.cs:
                g = ZERO
                for k, v in c.e.t.items():
                    if k:
                        g = g + v * r[k[0]]
                E.add(cmp0(g, {'<': 'le', '>': 'ge', '=': 'eq'}[c.sense]), 'fact')
            for v in self.vs:
                if fin(v.lb):
                    E.add(cmp0(r[v.i], 'ge'), 'fact')
                if fin(v.ub):
                    E.add(cmp0(r[v.i], 'le'), 'fact')
            g = ZERO
            for k, v in self.obj.t.items():
                if k:
                    g = g + v * r[k[0]]
            E.add(cmp0(g, 'lt'), 'fact')
            return
        x = [E.fresh('gx') for _ in range(n)]
        for v in self.vs:
            if v.vt == 'B':
                x[v.i] = (ZERO, ONE)[E.choose(2)]
        E.assume(self._ok(x), 'fact', check=True)
        self.X = x
        self.V = ev(self.obj, x)
        if self._mip():
            for p in pts:
                E.add(or_(S.not_(self._ok(p)), cmp0(ev(self.obj, p) - self.V, 'ge')), 'fact')
            return
        self.PI = []
        for k, c in enumerate(self.cs):
            c.k = k
            y = E.fresh('pi')
            if c.sense != '=':
                E.add(cmp0(y, 'le' if c.sense == '<' else 'ge'), 'fact')
                E.add(or_(cmp0(y, 'eq'), cmp0(ev(c.e, x), 'eq')), 'fact')
            self.PI.append(y)
        self.RC = []
        for v in self.vs:
            if not fin(v.lb) and not fin(v.ub):
                self.RC.append(ZERO)
                continue
            y = E.fresh('rc')
            lo = cmp0(x[v.i] - Sym.of(v.lb), 'eq') if fin(v.lb) else False
            hi = cmp0(x[v.i] - Sym.of(v.ub), 'eq') if fin(v.ub) else False
            E.add(or_(cmp0(y, 'eq'), and_(cmp0(y, 'gt'), lo), and_(cmp0(y, 'lt'), hi)), 'fact')
            self.RC.append(y)
        for j in range(n):
            g = -self.RC[j]
            for k, v in self.obj.t.items():
                if k == (j,):
                    g = g + v
                elif len(k) == 2 and j in k:
                    g = g + v * x[k[0] if k[1] == j else k[1]] * (2 if k[0] == k[1] else 1)
            for y, c in zip(self.PI, self.cs):
                a = c.e.t.get((j,))
                if a is not None:
                    g = g - a * y
            E.add(cmp0(g, 'eq'), 'fact')

    def _basis(self, c):
        if c.k not in self.B:
            if S.E.choose(2):
                S.E.add(cmp0(ev(c.e, self.X), 'eq'), 'fact')
                self.B[c.k] = -1
            else:
                S.E.add(cmp0(self.PI[c.k], 'eq'), 'fact')
                self.B[c.k] = 0
        return self.B[c.k]


def module():
    m = types.ModuleType('gurobipy')
    m.__dict__.update(GRB=GRB, Model=Model, LinExpr=LinExpr, QuadExpr=QuadExpr, Var=Var, Constr=Constr, Env=Env, quicksum=quicksum,
                      GurobiError=GurobiError, tupledict=TupleDict, setParam=lambda *a: None)
    return m
