"""Symbolic scalars for executing pympc's own source.

Sym   exact rational function over real variables: num / prod(factors^exp), where num is a
      sparse polynomial with rational coefficients and every factor is known to be nonzero
      on the current path.
B     boolean combination of comparisons `Sym op 0`; bool(B) asks the engine to fork.

Floats of the program are read as the exact rational they denote; arithmetic is exact.
"""
from fractions import Fraction
import numbers

E = None  # current engine (set by engine.Engine.run)


def set_engine(e):
    global E
    E = e


class Unsupported(Exception):
    """The encoding cannot represent what the code does (never a verdict)."""


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def to_rat(c):
    """python/numpy number -> exact int/Fraction (None if not a finite number)."""
    if isinstance(c, bool):
        return int(c)
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return _norm(c)
    if isinstance(c, numbers.Integral):
        return int(c)
    if isinstance(c, numbers.Real):
        f = float(c)
        if f != f or f in (float('inf'), float('-inf')):
            return None
        # decimal reading of literals such as 1.e-7 or 0.1: exact binary value is what runs
        return _norm(Fraction(f))
    if type(c).__name__ == 'bool_':
        return int(bool(c))
    return None


# ----------------------------------------------------------------- polynomials
# poly = dict {monomial: coeff}, monomial = tuple of (var, exp) sorted by var

def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: _norm(c * k) for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


MAX_TERMS = 200000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    if len(a) * len(b) > 4000000:
        raise Unsupported('polynomial product too large')
    r = {}
    rules = E.sq_rules if E is not None else {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            s = r.get(m)
            r[m] = c if s is None else s + c
    r = {m: _norm(c) for m, c in r.items() if c}
    if rules:
        r = p_reduce(r, rules)
    if len(r) > MAX_TERMS:
        raise Unsupported('polynomial too large')
    return r


def p_reduce(p, rules):
    """replace v^2 by rules[v] (v is a square root)."""
    while True:
        hit = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = (m, v, e)
                    break
            if hit:
                break
        if not hit:
            return p
        v = hit[1]
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.get(v, 0)
            if e >= 2:
                d[v] = e - 2
                if not d[v]:
                    del d[v]
                base = {tuple(sorted(d.items())): c}
                q = p_mul_plain(base, rules[v])
                out = p_add(out, q)
            else:
                out = p_add(out, {m: c})
        p = out


def p_mul_plain(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: _norm(c) for m, c in r.items() if c}


def p_key(p):
    return frozenset(p.items())


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_constval(p):
    return p.get((), 0)


def p_degree(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def p_vars(p):
    return {v for m in p for v, _ in m}


def _lead(p):
    # graded lexicographic leading monomial
    return max(p, key=lambda m: (sum(e for _, e in m), _lexkey(m)))


def _lexkey(m):
    # larger exponent of smaller variable first
    return tuple((-v, e) for v, e in m)


def _m_div(a, b):
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def p_exact_div(a, b):
    """a / b if exact, else None (multivariate division, single variable elimination order)."""
    if not a:
        return {}
    if p_isconst(b):
        return p_scale(a, Fraction(1) / p_constval(b))
    if p_degree(a) < p_degree(b) or not p_vars(b) <= p_vars(a):
        return None
    q = {}
    r = dict(a)

    vs = sorted(p_vars(a))

    def lm(p):
        return max(p, key=lambda m: tuple(dict(m).get(v, 0) for v in vs))
    lb = lm(b)
    cb = b[lb]
    n = 0
    while r:
        n += 1
        if n > 3000:
            return None
        la = lm(r)
        m = _m_div(la, lb)
        if m is None:
            return None
        c = _norm(Fraction(r[la]) / cb)
        q = p_add(q, {m: c})
        r = p_add(r, p_scale(p_mul_plain({m: c}, b), -1))
    return q


# ----------------------------------------------------------------- scalars

class Sym(object):
    __slots__ = ('num', 'den', '_k')
    __array_priority__ = 1000.0

    def __init__(self, num, den=()):
        self.num = num
        self.den = den   # tuple of (factor id, exp), sorted
        self._k = None

    # construction
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, B):
            return Sym(p_const(1 if bool(x) else 0))
        c = to_rat(x)
        if c is None:
            conv = getattr(x, '_vp_sym_', None)
            if conv is not None:
                return conv()
            if hasattr(x, 'shape') and getattr(x, 'shape', None) == ():
                return Sym.of(x.item())
            if hasattr(x, 'free_symbols'):
                return from_sympy(x)
            raise Unsupported('cannot lift %r' % (x,))
        return Sym(p_const(c))

    @staticmethod
    def var(i):
        return Sym({((i, 1),): 1})

    @property
    def is_const(self):
        return not self.den and p_isconst(self.num)

    @property
    def const(self):
        return p_constval(self.num)

    def key(self):
        if self._k is None:
            self._k = (p_key(self.num), self.den)
        return self._k

    # arithmetic
    def _bin(self, o):
        try:
            return Sym.of(o)
        except Unsupported:
            return None

    def __add__(self, o):
        if hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ():
            return NotImplemented
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_add(self, o)
    __radd__ = __add__

    def __neg__(self):
        return Sym(p_scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ():
            return NotImplemented
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_add(self, -o)

    def __rsub__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_add(o, -self)

    def __mul__(self, o):
        if hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ():
            return NotImplemented
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ():
            return NotImplemented
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_div(self, o)
    __div__ = __truediv__

    def __rtruediv__(self, o):
        o = self._bin(o)
        if o is None:
            return NotImplemented
        return s_div(o, self)

    def __pow__(self, k):
        k = Sym.of(k)
        if not k.is_const:
            raise Unsupported('symbolic exponent')
        k = Fraction(k.const)
        if k == Fraction(1, 2):
            return self.sqrt()
        if k.denominator != 1:
            raise Unsupported('fractional exponent')
        k = int(k)
        r = Sym(p_const(1))
        for _ in range(abs(k)):
            r = r * self
        return 1 / r if k < 0 else r

    def __abs__(self):
        if self.is_const:
            return Sym(p_const(abs(self.const)))
        return E.sym_abs(self)

    def sqrt(self):
        return E.sym_sqrt(self)

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym({})

    def item(self):
        return self

    def copy(self):
        return self

    # scalars of numpy quack like 0-d arrays
    @property
    def T(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def dot(self, o):
        return self * o

    def flatten(self):
        from . import symnp
        return symnp.asym([self])
    ravel = flatten

    def sum(self, *a, **k):
        return self
    max = sum
    min = sum

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, (str, type(None))):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            raise TypeError("comparison not supported between instances of 'float' and '%s'" % type(o).__name__)
        if hasattr(o, 'dtype') and getattr(o, 'shape', ()) != ():
            return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            lt = o > 0
            return {'le': lt, 'lt': lt, 'ge': not lt, 'gt': not lt, 'eq': False, 'ne': True}[op]
        try:
            o = Sym.of(o)
        except Unsupported:
            return NotImplemented
        return cmp0(self - o, op)

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const:
            return float(self.const)
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const:
            return int(self.const)
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        if self.is_const and Fraction(self.const).denominator == 1:
            return int(self.const)
        raise TypeError('symbolic value used as an index')

    def __round__(self, n=None):
        return E.sym_round(self, n or 0)
    rint = __round__

    def round(self, n=0, **k):
        return E.sym_round(self, n)

    def floor(self):
        return E.sym_floor(self)
    __floor__ = floor

    def ceil(self):
        return -E.sym_floor(-self)
    __ceil__ = ceil

    def trunc(self):
        return E.sym_floor(self) if bool(self >= 0) else -E.sym_floor(-self)

    def __floordiv__(self, o):
        return E.sym_floor(self / o)

    def __rfloordiv__(self, o):
        return E.sym_floor(o / self)

    def __mod__(self, o):
        return self - o * E.sym_floor(self / o)

    def __rmod__(self, o):
        return o - self * E.sym_floor(o / self)

    def __repr__(self):
        if self.is_const:
            return repr(float(self.const))
        return '<sym %d terms>' % len(self.num)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


ZERO = Sym({})
ONE = Sym(p_const(1))


def _den_lcm(d1, d2):
    if d1 == d2:
        return d1, (), ()
    a, b = dict(d1), dict(d2)
    l = dict(a)
    for f, e in b.items():
        l[f] = max(l.get(f, 0), e)
    m1 = tuple(sorted((f, e - a.get(f, 0)) for f, e in l.items() if e - a.get(f, 0)))
    m2 = tuple(sorted((f, e - b.get(f, 0)) for f, e in l.items() if e - b.get(f, 0)))
    return tuple(sorted(l.items())), m1, m2


def _den_poly(d):
    r = p_const(1)
    for f, e in d:
        for _ in range(e):
            r = p_mul(r, E.factors[f][0])
    return r


def _cancel(num, den):
    """divide out factors of den that exactly divide num."""
    if not den:
        return num, den
    if not num:
        return num, ()
    out = []
    for f, e in den:
        fp = E.factors[f][0]
        while e > 0:
            if len(num) > 400:
                break
            q = p_exact_div(num, fp)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((f, e))
    return num, tuple(out)


def s_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        n = p_add(a.num, b.num)
        if a.den:
            n, d = _cancel(n, a.den)
            return Sym(n, d)
        return Sym(n)
    den, m1, m2 = _den_lcm(a.den, b.den)
    n = p_add(p_mul(a.num, _den_poly(m1)), p_mul(b.num, _den_poly(m2)))
    n, den = _cancel(n, den)
    return Sym(n, den)


def s_mul(a, b):
    if not a.num or not b.num:
        return ZERO
    n = p_mul(a.num, b.num)
    if not a.den and not b.den:
        return Sym(n)
    d = dict(a.den)
    for f, e in b.den:
        d[f] = d.get(f, 0) + e
    n, den = _cancel(n, tuple(sorted(d.items())))
    return Sym(n, den)


def s_div(a, b):
    if b.is_const:
        c = b.const
        if not c:
            E.nonfinite('division by zero')
        return Sym(p_scale(a.num, Fraction(1) / c), a.den)
    # b must be nonzero on this path
    if bool(cmp0(Sym(b.num), 'eq')):
        E.nonfinite('division by zero')
    num = p_mul(a.num, _den_poly(b.den))
    # normalise the divisor: content-free, sign-free
    lead = b.num[min(b.num)]
    fp = p_scale(b.num, Fraction(1) / lead)
    num = p_scale(num, Fraction(1) / lead)
    f = E.factor(fp)
    d = dict(a.den)
    d[f] = d.get(f, 0) + 1
    num, den = _cancel(num, tuple(sorted(d.items())))
    return Sym(num, den)


def cmp0(d, op):
    """B (or bool) for `d op 0`."""
    if op == 'ge':
        return cmp0(-d, 'le')
    if op == 'gt':
        return cmp0(-d, 'lt')
    if not d.num or d.is_const:
        c = d.const
        return {'le': c <= 0, 'lt': c < 0, 'eq': c == 0, 'ne': c != 0}[op]
    if op in ('eq', 'ne'):
        return B('cmp', op, Sym(d.num))
    return B('cmp', op, d)


class B(object):
    """('cmp', op, Sym) | ('and', [..]) | ('or', [..]) | ('const', bool)"""
    __slots__ = ('kind', 'op', 'a')
    __array_priority__ = 1000.0

    def __init__(self, kind, op, a):
        self.kind, self.op, self.a = kind, op, a

    def __bool__(self):
        return E.branch(self)

    def __and__(self, o):
        return and_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return or_(and_(self, not_(o)), and_(not_(self), o))
    __rxor__ = __xor__

    def __invert__(self):
        return not_(self)

    def logical_not(self):
        return not_(self)

    def _i(self):
        return 1 if bool(self) else 0

    def __add__(self, o):
        return self._i() + (o._i() if isinstance(o, B) else o)
    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * (o._i() if isinstance(o, B) else o)
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - (o._i() if isinstance(o, B) else o)

    def __rsub__(self, o):
        return o - self._i()

    def __eq__(self, o):
        if isinstance(o, B):
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return id(self)

    def __int__(self):
        return self._i()
    __index__ = __int__

    def __repr__(self):
        return '<B %s>' % self.kind

    def item(self):
        return self

    def all(self, *a, **k):
        return self
    any = all


def is_bool(x):
    return isinstance(x, (bool, B)) or type(x).__name__ in ('bool_',)


def not_(x):
    if not isinstance(x, B):
        return not x
    if x.kind == 'cmp':
        if x.op == 'le':
            return B('cmp', 'lt', -x.a)
        if x.op == 'lt':
            return B('cmp', 'le', -x.a)
        return B('cmp', 'ne' if x.op == 'eq' else 'eq', x.a)
    if x.kind == 'int':
        return B('int', not x.op, x.a)
    if x.kind == 'pair':
        return B('pair', 'ne' if x.op == 'eq' else 'eq', x.a)
    return B('or' if x.kind == 'and' else 'and', None, [not_(y) for y in x.a])


def and_(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if not x:
                return False
            continue
        if x.kind == 'and':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B('and', None, out)


def or_(*xs):
    out = []
    for x in xs:
        if not isinstance(x, B):
            if x:
                return True
            continue
        if x.kind == 'or':
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B('or', None, out)


def implies(p, q):
    return or_(not_(p), q)


def from_sympy(x):
    """sympy expression whose free symbols were registered with the engine -> Sym."""
    import sympy as sp
    x = sp.together(sp.sympify(x)) if x.is_rational_function() else x
    num, den = sp.fraction(x)
    gens = sorted(x.free_symbols, key=str)
    for g in gens:
        if g not in E.sympy_map:
            raise TypeError('Cannot convert expression to float')

    def conv(e):
        if not gens:
            return Sym.of(_sp_rat(e))
        p = sp.Poly(e, *gens)
        r = ZERO
        for mon, c in p.terms():
            t = Sym.of(_sp_rat(c))
            for g, k in zip(gens, mon):
                for _ in range(k):
                    t = t * E.sympy_map[g]
            r = r + t
        return r
    n = conv(num)
    d = conv(den)
    return n / d if not (d.is_const and d.const == 1) else n


def _sp_rat(c):
    import sympy as sp
    c = sp.sympify(c)
    if c.is_Rational:
        return _norm(Fraction(int(c.p), int(c.q)))
    if c.is_Float:
        return to_rat(float(c))
    raise TypeError('Cannot convert expression to float')
