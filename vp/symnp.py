"""Stand-in for numpy whose numeric arrays hold Sym objects.

Structure (stacking, slicing, fancy indexing, views, in-place writes, broadcasting) is left to
numpy itself: SymArray is an ndarray of dtype object.  Only what numpy cannot do on objects
(creation defaults, comparisons, reductions, linear algebra) is replaced."""
import types
import numpy as rnp
from fractions import Fraction

from . import sym as S
from . import linalg as L
from .sym import Sym, B, ZERO, ONE, Unsupported, and_, or_, not_, cmp0

CMP = {'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__', 'greater_equal': '__ge__',
       'equal': '__eq__', 'not_equal': '__ne__'}


def is_num(x):
    return isinstance(x, (int, float, rnp.number, Sym)) and not isinstance(x, bool)


def lift1(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (B, bool, rnp.bool_)):
        return x
    if x is None or isinstance(x, (str, Poison)):
        return x
    if isinstance(x, complex):
        if x.imag == 0:
            return Sym.of(x.real)
        raise Unsupported('complex value')
    return Sym.of(x)


class Poison(object):
    """value the encoding does not provide; any use is reported as unsupported."""

    def __init__(self, what):
        self.what = what

    def _die(self, *a, **k):
        raise Unsupported(self.what)
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _die
    __lt__ = __le__ = __gt__ = __ge__ = __abs__ = __neg__ = __float__ = __bool__ = __getitem__ = _die
    __eq__ = __ne__ = _die
    __hash__ = None


_rdt = rnp.ndarray.dtype.__get__
_plain = [0]        # > 0 inside numpy's own python code, which has to see what is stored


def rdt(x):
    """the dtype of what is stored (object for symbolic entries)."""
    return _rdt(x)


class SymArray(rnp.ndarray):
    __array_priority__ = 2000.0

    @property
    def dtype(self):
        """what the code under test sees."""
        r = _rdt(self)
        if _plain[0] or r != object:
            return r
        f = self.view(rnp.ndarray).ravel()
        if f.size and all(isinstance(x, (B, bool, rnp.bool_)) for x in f):
            return rnp.dtype(bool)
        if all(is_num(x) for x in f):
            return rnp.dtype('int64') if isinstance(self, IntSymArray) else rnp.dtype('float64')
        return r

    # -------------------------------------------------- indexing
    def __getitem__(self, k):
        r = rnp.ndarray.__getitem__(self, key(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, rnp.ndarray) and rdt(v) != object:
            v = lift(v)
        elif isinstance(v, (list, tuple)):
            v = asym(v)
        elif not isinstance(v, rnp.ndarray):
            v = lift1(v)
        rnp.ndarray.__setitem__(self, key(k), v)

    # -------------------------------------------------- ufuncs
    def __array_ufunc__(self, uf, method, *inputs, **kw):
        out = kw.pop('out', None)
        kw.pop('dtype', None)
        kw.pop('casting', None)
        name = uf.__name__
        integer = name in KEEP_INT and method == '__call__' and all(is_int(x) for x in inputs)
        for o in out if isinstance(out, tuple) else (out,):
            if isinstance(o, IntSymArray) and not integer:
                raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'" % name)
        ins = [raw(x) for x in inputs]
        if method == 'reduce':
            r = reduce_(name, ins[0], kw)
            return put(out, r)
        if method != '__call__':
            r = getattr(uf, method)(*ins, **kw)
            return put(out, wrap(r))
        if name in CMP:
            op = CMP[name]
            r = emap(lambda a, b: compare(a, b, op), *ins)
        elif name in ('logical_and', 'bitwise_and'):
            r = emap(lambda a, b: and_(truth(a), truth(b)), *ins)
        elif name in ('logical_or', 'bitwise_or'):
            r = emap(lambda a, b: or_(truth(a), truth(b)), *ins)
        elif name in ('logical_not', 'invert'):
            r = emap(lambda a: not_(truth(a)), *ins)
        elif name in ('logical_xor', 'bitwise_xor'):
            r = emap(lambda a, b: or_(and_(truth(a), not_(truth(b))), and_(not_(truth(a)), truth(b))), *ins)
        elif name in ('absolute', 'fabs'):
            r = emap(lambda a: abs(Sym.of(a)), *ins)
        elif name == 'sqrt':
            r = emap(lambda a: S.E.sym_sqrt(Sym.of(a)), *ins)
        elif name == 'square':
            r = emap(lambda a: a * a, *ins)
        elif name == 'sign':
            r = emap(sign1, *ins)
        elif name in ('maximum', 'fmax'):
            r = emap(lambda a, b: S.E.sym_max([a, b]), *ins)
        elif name in ('minimum', 'fmin'):
            r = emap(lambda a, b: S.E.sym_min([a, b]), *ins)
        elif name in ('isnan', 'isinf'):
            return rnp.zeros(rnp.shape(ins[0]), dtype=bool)
        elif name == 'isfinite':
            return rnp.ones(rnp.shape(ins[0]), dtype=bool)
        elif name == 'matmul':
            r = dot(ins[0], ins[1])
        elif name in ('add', 'subtract', 'multiply', 'true_divide', 'divide', 'negative', 'positive', 'power',
                      'reciprocal', 'conjugate', 'float_power'):
            fn = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
                  'true_divide': div1, 'divide': div1, 'negative': lambda a: -a,
                  'positive': lambda a: a, 'power': lambda a, b: Sym.of(a) ** b,
                  'float_power': lambda a, b: Sym.of(a) ** b,
                  'reciprocal': lambda a: div1(ONE, a), 'conjugate': lambda a: a}[name]
            r = emap(fn, *ins)
        elif name in ('floor', 'ceil', 'rint', 'trunc'):
            r = emap(lambda a: getattr(Sym.of(a), name)(), *ins)
        elif name in ('floor_divide', 'remainder'):
            r = emap(lambda a, b: Sym.of(a) // b if name == 'floor_divide' else Sym.of(a) % b, *ins)
        elif name == 'exp':
            r = emap(lambda a: S.E.sym_exp(Sym.of(a)), *ins)
        else:
            vals = [x for i in ins for x in rnp.ravel(i)]
            if all(not isinstance(v, Sym) or v.is_const for v in vals):
                r = uf(*[tofloat(i) for i in ins], **kw)
                r = lift(r) if isinstance(r, rnp.ndarray) and rdt(r).kind == 'f' else r
            else:
                raise Unsupported('ufunc %s on symbolic values' % name)
        r = put(out, r)
        return as_int(r) if integer else r

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = getattr(func, '__module__', '') or ''
        if 'linalg' in mod and name in LINALG:
            return LINALG[name](*args, **kwargs)
        if name in FUNCS and 'linalg' not in mod:
            return FUNCS[name](*args, **kwargs)
        if 'linalg' in mod:
            raise Unsupported('numpy.linalg.%s' % name)
        _plain[0] += 1
        try:
            r = super().__array_function__(func, types_, args, kwargs)
        finally:
            _plain[0] -= 1
        return wrap(r)

    # -------------------------------------------------- methods
    def dot(self, o, out=None):
        r = dot(self, o)
        return as_int(r) if is_int(self) and is_int(o) else r

    def astype(self, dtype, *a, **k):
        if dtype is FLOAT or dtype in (float, rnp.float64, 'float', 'float64', 'd'):
            return asym(self)
        if dtype == object:
            return self.copy()
        if dtype in (bool, rnp.bool_):
            return rnp.array([bool(truth(x)) for x in self.ravel()], dtype=bool).reshape(self.shape)
        if dtype in (int, rnp.int64, 'int', rnp.int_, rnp.intp):
            if isinstance(dtype, rnp.dtype) or not all(is_const(x) for x in self.view(rnp.ndarray).ravel()):
                r = filled(self.shape, ZERO).view(IntSymArray)
                r[...] = self
                return r
            return rnp.array([int(x) for x in self.ravel()], dtype=int).reshape(self.shape)
        return asym(self)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return f_max(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return f_min(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return f_all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return f_any(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, **k):
        return f_mean(self, axis=axis)

    def nonzero(self):
        return f_nonzero(self)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return f_argmax(-self, axis)

    def argsort(self, axis=-1, **k):
        return f_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = f_sort(self, axis)

    def round(self, *a, **k):
        return f_round(self, *a, **k)

    def clip(self, lo=None, hi=None, **k):
        return f_clip(self, lo, hi)

    def conj(self):
        return self
    conjugate = conj

    @property
    def real(self):
        return self

    def std(self, *a, **k):
        raise Unsupported('std')
    var = std

    def __contains__(self, x):
        return bool(f_any(self == x))

    def __bool__(self):
        if self.size == 1:
            x = self.ravel().view(rnp.ndarray)[0]
            return bool(truth(x))
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.ravel().view(rnp.ndarray)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def _vp_sym_(self):
        if self.size == 1:
            return Sym.of(self.ravel().view(rnp.ndarray)[0])
        raise Unsupported('array used as a scalar')


KEEP_INT = ('add', 'subtract', 'multiply', 'negative', 'positive', 'absolute', 'sign', 'maximum', 'minimum', 'square', 'floor_divide', 'remainder', 'matmul')


class IntSymArray(SymArray):
    """constants of an integer dtype: what is written into such an array (or one made like it) is truncated."""

    def __setitem__(self, k, v):
        a = asym(v)
        f = [trunc1(x) for x in a.view(rnp.ndarray).ravel()]
        o = rnp.empty(len(f), dtype=object)
        for i, x in enumerate(f):
            o[i] = x
        o = o.reshape(a.shape)
        rnp.ndarray.__setitem__(self, key(k), o[()] if o.shape == () else o)


def trunc1(x):
    if isinstance(x, (B, bool, rnp.bool_)):
        x = 1 if bool(x) else 0
    x = Sym.of(x)
    if not x.is_const:
        return x.trunc()
    return Sym.of(int(Fraction(x.const)))


def is_const(x):
    return not isinstance(x, (Sym, B)) or (isinstance(x, Sym) and x.is_const)


def is_int(x):
    if isinstance(x, IntSymArray):
        return True
    if isinstance(x, rnp.ndarray):
        return rdt(x).kind in 'ib'
    return isinstance(x, (int, rnp.integer))


def as_int(r):
    return r.view(IntSymArray) if isinstance(r, SymArray) else r


def div1(a, b):
    a = Sym.of(a)
    b = Sym.of(b)
    return a / b


def sign1(a):
    a = Sym.of(a)
    if bool(a > 0):
        return ONE
    if bool(a < 0):
        return -ONE
    return ZERO


def truth(x):
    if isinstance(x, (B, bool)):
        return x
    if isinstance(x, rnp.bool_):
        return bool(x)
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def compare(a, b, op):
    if isinstance(a, (B, bool, rnp.bool_)) and isinstance(b, (B, bool, rnp.bool_)):
        a, b = truth(a), truth(b)
        e = or_(and_(a, b), and_(not_(a), not_(b)))
        if op == '__eq__':
            return e
        if op == '__ne__':
            return not_(e)
    if isinstance(a, (B, bool)):
        a = 1 if bool(a) else 0
    if isinstance(b, (B, bool)):
        b = 1 if bool(b) else 0
    if isinstance(b, Sym) and not isinstance(a, Sym):
        if isinstance(a, float) and a in (float('inf'), float('-inf')):
            flip = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__', '__ge__': '__le__'}.get(op, op)
            return getattr(b, flip)(a)
        a = lift1(a)
    if isinstance(a, Sym):
        r = getattr(a, op)(b)
        if r is NotImplemented:
            return op == '__ne__'
        return r
    return bool(getattr(lift1(a) if is_num(a) else a, op)(b))


def key(k):
    """index keys: masks and Sym constants become plain numpy/python."""
    if isinstance(k, tuple):
        return tuple(key(x) for x in k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, B):
        return bool(k)
    if isinstance(k, rnp.ndarray) and rdt(k) == object:
        flat = [x for x in k.view(rnp.ndarray).ravel()]
        if flat and all(isinstance(x, (B, bool, rnp.bool_)) for x in flat):
            return rnp.array([bool(x) for x in flat], dtype=bool).reshape(k.shape)
        return rnp.array([x.__index__() for x in flat], dtype=int).reshape(k.shape)
    if isinstance(k, list):
        k2 = [key(x) for x in k]
        if not k2:
            return rnp.array([], dtype=int)
        return k2
    if isinstance(k, (range, set)):
        return list(k) if len(k) else rnp.array([], dtype=int)
    return k


def raw(x):
    if isinstance(x, SymArray):
        return x.view(rnp.ndarray)
    if isinstance(x, rnp.ndarray):
        return x if rdt(x) == object else lift(x).view(rnp.ndarray)
    if isinstance(x, (list, tuple)):
        return asym(x).view(rnp.ndarray)
    return x


def put(out, r):
    r = wrap(r)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if rdt(o) != object:
                raise Unsupported('in-place operation of symbolic values on a float array')
            rnp.ndarray.__setitem__(o.view(rnp.ndarray), Ellipsis, raw(r))
            return o
    return r


def emap(fn, *xs):
    arrs = [x if isinstance(x, rnp.ndarray) else obj0(x) for x in xs]
    if all(a.shape == () for a in arrs):
        return fn(*[a.item() if rdt(a) != object else a[()] for a in arrs])
    bs = rnp.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = rnp.empty(bs[0].shape, dtype=object)
    of = out.ravel()
    fl = [b.ravel() for b in bs]
    for i in range(of.size):
        of[i] = fn(*[f[i] for f in fl])
    return of.reshape(bs[0].shape).view(SymArray)


def obj0(x):
    a = rnp.empty((), dtype=object)
    a[()] = x
    return a


def wrap(r):
    if isinstance(r, IntSymArray) and r.shape != ():
        return r
    if isinstance(r, SymArray):
        return r if r.shape != () else r.view(rnp.ndarray)[()]
    if isinstance(r, rnp.ndarray):
        if rdt(r) == object:
            if r.shape == ():
                return r[()]
            return r.view(SymArray)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def lift(a):
    """numeric ndarray -> SymArray of exact constants."""
    out = rnp.empty(a.shape, dtype=object)
    f = out.ravel()
    src = a.ravel()
    for i in range(f.size):
        f[i] = lift1(src[i])
    return f.reshape(a.shape).view(SymArray)


def asym(x, copy=True):
    """array-like -> SymArray with Sym entries."""
    if isinstance(x, rnp.ndarray):
        if rdt(x) == object:
            out = rnp.empty(x.shape, dtype=object)
            o = out.reshape(-1)
            src = x.view(rnp.ndarray).ravel()
            for i in range(o.size):
                o[i] = lift1(src[i])
            return o.reshape(x.shape).view(SymArray)
        return lift(x)
    if isinstance(x, (list, tuple)):
        a = robj(x)
        return asym(a)
    if hasattr(x, 'tolist') and hasattr(x, 'rows'):      # sympy matrices
        return asym(x.tolist())
    a = rnp.empty((), dtype=object)
    a[()] = lift1(x)
    return a.view(SymArray)


def shape_of(x):
    if isinstance(x, rnp.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if not x:
            return (0,)
        s = shape_of(x[0])
        for y in x[1:]:
            if shape_of(y) != s:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        return (len(x),) + s
    if hasattr(x, 'tolist') and hasattr(x, 'rows'):
        return (x.rows, x.cols)
    return ()


def robj(x):
    x = list(x)
    sh = shape_of(x)
    out = rnp.empty(sh, dtype=object)
    flat = []

    def walk(y):
        if isinstance(y, rnp.ndarray):
            flat.extend(y.view(rnp.ndarray).ravel().tolist() if rdt(y) != object else list(y.view(rnp.ndarray).ravel()))
        elif isinstance(y, (list, tuple)):
            for z in y:
                walk(z)
        elif hasattr(y, 'tolist') and hasattr(y, 'rows'):
            walk(y.tolist())
        else:
            flat.append(y)
    walk(x)
    o = out.reshape(-1)
    for i, v in enumerate(flat):
        o[i] = v
    return o.reshape(sh)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def tofloat(x):
    if isinstance(x, rnp.ndarray) and rdt(x) == object:
        return rnp.array([float(v) for v in x.view(rnp.ndarray).ravel()]).reshape(x.shape)
    if isinstance(x, Sym):
        return float(x)
    return x


# ------------------------------------------------------------------ functions

def mat(x):
    """2-d array -> list of lists of Sym."""
    a = raw(x)
    if not isinstance(a, rnp.ndarray) or a.ndim != 2:
        raise RLinAlgError('%s-dimensional array given. Array must be two-dimensional' % rnp.ndim(a))
    return [[Sym.of(v) for v in r] for r in a]


RLinAlgError = rnp.linalg.LinAlgError


def from_mat(M, shape=None):
    out = rnp.empty(shape if shape is not None else (len(M), len(M[0]) if M else 0), dtype=object)
    for i, r in enumerate(M):
        for j, v in enumerate(r):
            out[i, j] = v
    return out.view(SymArray)


def dot(a, b, out=None):
    if out is not None:
        out[...] = dot(a, b)
        return out
    a, b = raw(a), raw(b)
    if not isinstance(a, rnp.ndarray) or a.ndim == 0 or not isinstance(b, rnp.ndarray) or b.ndim == 0:
        r = wrap(rnp.multiply(raw_arr(a), raw_arr(b)))
        return r
    if a.shape[-1] != (b.shape[-2] if b.ndim > 1 else b.shape[0]):
        raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d (dim %d)' % (
            a.shape, b.shape, a.shape[-1], a.ndim - 1, b.shape[-2] if b.ndim > 1 else b.shape[0], max(b.ndim - 2, 0)))
    if a.ndim == 1 and b.ndim == 1:
        return L.dotv([Sym.of(x) for x in a], [Sym.of(x) for x in b])
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim == 3 and b.ndim <= 2:
            return from_list([dot(x, b) for x in a])
        raise Unsupported('dot of more than two dimensions')
    A = [[Sym.of(x) for x in r] for r in (a if a.ndim == 2 else a.reshape(1, -1))]
    Bm = [[Sym.of(x) for x in r] for r in (b if b.ndim == 2 else b.reshape(-1, 1))]
    rows, cols = len(A), (b.shape[1] if b.ndim == 2 else 1)
    M = L.mul(A, Bm) if len(Bm) else [[ZERO] * cols for _ in range(rows)]
    r = from_mat(M, (rows, cols))
    if a.ndim == 1:
        return r.reshape(cols)
    if b.ndim == 1:
        return r.reshape(rows)
    return r


def from_list(xs):
    return asym(list(xs))


def raw_arr(x):
    return x if isinstance(x, rnp.ndarray) else obj0(lift1(x))


def matmul(a, b, out=None, **k):
    return dot(a, b)


def shp(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return int(s)


def _int_dtype(dtype):
    return dtype in (int, bool, rnp.int64, rnp.int32, rnp.bool_, rnp.intp, 'int', 'bool', 'int64') and dtype is not FLOAT


def filled(shape, v):
    out = rnp.empty(shp(shape), dtype=object)
    out.reshape(-1)[:] = [v] * out.size if out.size else []
    return out.view(SymArray)


def f_zeros(shape, dtype=float, *a, **k):
    if _int_dtype(dtype):
        if isinstance(dtype, rnp.dtype) and dtype.kind == 'i':     # somebody's dtype: an array of numbers, not of indices
            return filled(shape, ZERO).view(IntSymArray)
        return rnp.zeros(shape, dtype)
    return filled(shape, ZERO)


def f_ones(shape, dtype=float, *a, **k):
    if _int_dtype(dtype):
        if isinstance(dtype, rnp.dtype) and dtype.kind == 'i':     # somebody's dtype: an array of numbers, not of indices
            return filled(shape, ONE).view(IntSymArray)
        return rnp.ones(shape, dtype)
    return filled(shape, ONE)


def f_full(shape, v, dtype=None, *a, **k):
    if dtype is not None and _int_dtype(dtype) or (isinstance(v, bool)):
        return rnp.full(shape, v, dtype)
    if isinstance(v, (rnp.ndarray, list, tuple)):
        out = f_zeros(shape)
        out[...] = v
        return out
    return filled(shape, lift1(v))


def f_empty(shape, dtype=float, *a, **k):
    if _int_dtype(dtype):
        if isinstance(dtype, rnp.dtype) and dtype.kind == 'i':     # somebody's dtype: an array of numbers, not of indices
            return filled(shape, ZERO).view(IntSymArray)
        return rnp.zeros(shape, dtype)
    return filled(shape, ZERO)


def f_zeros_like(a, dtype=None, *x, **k):
    if dtype is None and isinstance(a, IntSymArray):
        return filled(a.shape, ZERO).view(IntSymArray)
    return f_zeros(rnp.shape(a), dtype if dtype is not None else float)


def f_ones_like(a, dtype=None, *x, **k):
    if dtype is None and isinstance(a, IntSymArray):
        return filled(a.shape, ONE).view(IntSymArray)
    return f_ones(rnp.shape(a), dtype if dtype is not None else float)


def f_full_like(a, v, dtype=None, *x, **k):
    if dtype is None and isinstance(a, IntSymArray):
        r = filled(a.shape, ZERO).view(IntSymArray)
        r[...] = v
        return r
    return f_full(rnp.shape(a), v)


def f_eye(n, m=None, k=0, dtype=float, **kw):
    if _int_dtype(dtype):
        return rnp.eye(n, m, k, dtype)
    return lift(rnp.eye(int(n), None if m is None else int(m), k))


def f_identity(n, dtype=None, **k):
    return f_eye(n)


def f_array(x, dtype=None, copy=True, **k):
    nd = k.pop('ndmin', 0)
    if nd:
        r = f_array(x, dtype, copy, **k)
        return r.reshape((1,) * max(nd - r.ndim, 0) + r.shape) if isinstance(r, rnp.ndarray) else r
    if dtype is not None and _int_dtype(dtype):
        if isinstance(x, SymArray):
            return x.astype(dtype)
        if isinstance(dtype, rnp.dtype) or has_sym(x):
            return asym(x).astype(dtype)
        return rnp.array(x, dtype=dtype)
    if isinstance(x, IntSymArray) and dtype is None:
        return x.copy()
    if isinstance(x, rnp.ndarray):
        if rdt(x) == object:
            if dtype is None and x.size and not any(is_num(v) for v in x.view(rnp.ndarray).ravel()):
                return x.copy().view(SymArray)
            return asym(x)
        return asym(x) if rdt(x).kind == 'f' or dtype is not None else x.copy()
    if hasattr(x, 'tolist') and hasattr(x, 'rows'):
        # sympy: keep expressions until astype(float)
        return robj(x.tolist()).reshape(x.rows, x.cols).view(SympyArray)
    if isinstance(x, (list, tuple, range)):
        if dtype is None and not has_sym(list(x)):
            flat = []
            try:
                r = rnp.array(x)
                if rdt(r).kind in 'ib' and r.size:
                    return r
            except Exception:
                pass
        r = robj(list(x))
        if r.size and all(isinstance(v, (B, bool, rnp.bool_)) for v in r.ravel()):
            return r.view(SymArray)
        if r.size and any(hasattr(v, 'free_symbols') for v in r.ravel()) and dtype is None:
            return r.view(SympyArray)
        return asym(r)
    if is_num(x):
        return asym(x)
    if hasattr(x, '__iter__'):
        return f_array(list(x), dtype)
    return asym(x)


class SympyArray(rnp.ndarray):
    """object array of sympy expressions; becomes numeric by astype(float)."""

    def astype(self, dtype, *a, **k):
        if dtype in (int, bool):
            raise Unsupported('sympy to int')
        return asym(self.view(rnp.ndarray))


def f_asarray(x, dtype=None, **k):
    if isinstance(x, IntSymArray) and dtype is not None and _int_dtype(dtype):
        return x
    if isinstance(x, IntSymArray) and dtype is not None and not _int_dtype(dtype):
        return asym(x)
    if isinstance(x, SymArray) and not (dtype is not None and _int_dtype(dtype)):
        return x
    return f_array(x, dtype)


def reduce_(name, a, kw):
    axis = kw.get('axis', 0)
    keep = kw.get('keepdims', False)
    if name in ('maximum', 'fmax'):
        return f_max(a.view(SymArray), axis=axis, keepdims=keep)
    if name in ('minimum', 'fmin'):
        return f_min(a.view(SymArray), axis=axis, keepdims=keep)
    if name in ('logical_and', 'bitwise_and'):
        return f_all(a.view(SymArray), axis=axis, keepdims=keep)
    if name in ('logical_or', 'bitwise_or'):
        return f_any(a.view(SymArray), axis=axis, keepdims=keep)
    kw = {k: v for k, v in kw.items() if k in ('axis', 'keepdims')}
    if name == 'add':
        return along(lambda xs: sum_(xs), a, axis, keep)
    if name == 'multiply':
        return along(lambda xs: prod_(xs), a, axis, keep)
    raise Unsupported('reduction %s' % name)


def sum_(xs):
    acc = ZERO
    for x in xs:
        if isinstance(x, (B, bool, rnp.bool_)):
            x = Sym.of(1 if bool(x) else 0)
        acc = acc + x
    return acc


def prod_(xs):
    acc = ONE
    for x in xs:
        acc = acc * x
    return acc


def along(fn, a, axis, keep=False):
    a = raw(a)
    if not isinstance(a, rnp.ndarray):
        a = asym(a).view(rnp.ndarray)
    if axis is None:
        r = fn(list(a.ravel()))
        if keep:
            o = rnp.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SymArray)
        return r
    if isinstance(axis, tuple):
        for ax in sorted((x % a.ndim for x in axis), reverse=True):
            a = raw(along(fn, a, ax, keep))
        return wrap(a)
    axis = axis % a.ndim
    m = rnp.moveaxis(a, axis, -1)
    out = rnp.empty(m.shape[:-1], dtype=object)
    for idx in rnp.ndindex(*m.shape[:-1]):
        out[idx] = fn(list(m[idx]))
    if keep:
        out = rnp.expand_dims(out, axis)
    return wrap(out)


def _nonempty(xs, what):
    if not xs:
        raise ValueError('zero-size array to reduction operation %s which has no identity' % what)
    return xs


def f_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    def fn(xs):
        if initial is not None:
            xs = xs + [initial]
        xs = [x for x in xs if not (isinstance(x, float) and x == float('-inf'))] or xs
        return S.E.sym_max(_nonempty(xs, 'maximum'))
    return along(fn, a, axis, keepdims)


def f_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    def fn(xs):
        if initial is not None:
            xs = xs + [initial]
        xs = [x for x in xs if not (isinstance(x, float) and x == float('inf'))] or xs
        return S.E.sym_min(_nonempty(xs, 'minimum'))
    return along(fn, a, axis, keepdims)


def f_all(a, axis=None, out=None, keepdims=False, **k):
    return along(lambda xs: and_(*[truth(x) for x in xs]), a, axis, keepdims)


def f_any(a, axis=None, out=None, keepdims=False, **k):
    return along(lambda xs: or_(*[truth(x) for x in xs]), a, axis, keepdims)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if not isinstance(a, (rnp.ndarray, list, tuple)):
        if hasattr(a, '__iter__'):
            a = list(a)
        else:
            return a
    if isinstance(a, rnp.ndarray) and rdt(a) != object:
        r = rnp.sum(a, axis=axis, keepdims=keepdims)
        return r
    return along(sum_, asym(a) if not isinstance(a, rnp.ndarray) else a, axis, keepdims)


def f_prod(a, axis=None, **k):
    if isinstance(a, rnp.ndarray) and rdt(a) != object or not has_sym(a):
        return rnp.prod(a, axis=axis)
    return along(prod_, asym(a), axis)


def f_mean(a, axis=None, **k):
    a = asym(a)
    n = a.size if axis is None else a.shape[axis]
    return f_sum(a, axis=axis) / n


def f_average(a, axis=None, weights=None, **k):
    if weights is not None:
        w = asym(weights)
        return dot(w, asym(a)) / f_sum(w)
    return f_mean(a, axis)


def f_nonzero(a):
    a = raw(a)
    if rdt(a) != object:
        return rnp.nonzero(a)
    m = rnp.array([bool(truth(x)) for x in a.ravel()], dtype=bool).reshape(a.shape)
    return rnp.nonzero(m)


def f_where(c, *xy):
    if not xy:
        if isinstance(c, (list, tuple)):
            c = rnp.array([bool(truth(x)) for x in c], dtype=bool)
        return f_nonzero(c)
    x, y = xy

    def ite(k, a, b):
        k = truth(k)
        if isinstance(k, bool):
            return a if k else b
        a, b = lift1(a), lift1(b)
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.key() == b.key():
                return a
            t = S.E.fresh('ite')
            S.E.add(or_(and_(k, cmp0(t - a, 'eq')), and_(not_(k), cmp0(t - b, 'eq'))))
            return t
        return a if bool(k) else b
    return emap(ite, raw_arr(raw(c)), raw_arr(raw(x)), raw_arr(raw(y)))


def f_argmax(a, axis=None, **k):
    a = raw(a)
    if axis is None:
        xs = list(a.ravel())
        best = 0
        for i in range(1, len(xs)):
            if bool(Sym.of(xs[i]) > xs[best]):
                best = i
        return best
    m = rnp.moveaxis(a, axis, -1)
    out = rnp.empty(m.shape[:-1], dtype=int)
    for idx in rnp.ndindex(*m.shape[:-1]):
        out[idx] = f_argmax(m[idx])
    return out


def f_argmin(a, axis=None, **k):
    return f_argmax(-asym(a), axis)


def f_argsort(a, axis=-1, **k):
    a = raw(a)
    if a.ndim != 1:
        raise Unsupported('argsort of a matrix')
    order = []
    for i in range(a.size):
        p = len(order)
        while p > 0 and bool(Sym.of(a[i]) < a[order[p - 1]]):
            p -= 1
        order.insert(p, i)
    return rnp.array(order, dtype=int)


def f_sort(a, axis=-1, **k):
    a = asym(a)
    return a[f_argsort(a)]


def f_round(a, decimals=0, out=None, **k):
    if isinstance(a, Sym):
        return S.E.sym_round(a, decimals)
    return emap(lambda v: S.E.sym_round(v, decimals), raw(asym(a)))


def f_clip(a, lo, hi, *x, **k):
    r = asym(a)
    if lo is not None:
        r = emap(lambda p, q: S.E.sym_max([p, q]), raw(r), raw_arr(raw(lo)))
    if hi is not None:
        r = emap(lambda p, q: S.E.sym_min([p, q]), raw(r), raw_arr(raw(hi)))
    return r


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = Sym.of(rtol), Sym.of(atol)

    def fn(x, y):
        x, y = Sym.of(x), Sym.of(y)
        d = x - y
        bound = at if (y.is_const and y.const == 0) or (rt.is_const and rt.const == 0) else at + rt * abs(y)
        return and_(cmp0(d - bound, 'le'), cmp0(-d - bound, 'le'))
    return emap(fn, raw_arr(raw(a)), raw_arr(raw(b)))


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return f_all(r) if isinstance(r, rnp.ndarray) else r


def f_array_equal(a, b, **k):
    a, b = asym(a), asym(b)
    if a.shape != b.shape:
        return False
    return f_all(a == b) if a.shape else truth(a[()] == b[()])


def f_count_nonzero(a, axis=None, **k):
    m = raw(a)
    if axis is None:
        return int(sum(1 for x in m.ravel() if bool(truth(x))))
    return along(lambda xs: sum(1 for x in xs if bool(truth(x))), m, axis)


def f_diag(a, k=0):
    return wrap(rnp.diag(raw(a), k)) if raw(a).ndim == 2 else _diag1(a, k)


def _diag1(a, k):
    n = a.shape[0] + abs(k)
    out = f_zeros((n, n))
    for i in range(a.shape[0]):
        out[i + max(-k, 0), i + max(k, 0)] = a[i]
    return out


def f_unique(a, **k):
    if isinstance(a, rnp.ndarray) and rdt(a) == object:
        if k or a.ndim > 1 and a.size:
            raise Unsupported('np.unique on symbolic values')
        out = []
        for x in f_sort(asym(a).ravel()):
            if not out or bool(truth(x != out[-1])):
                out.append(x)
        return asym(out)
    return rnp.unique(a, **k)


def f_select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, x, r)
    return r


def f_linspace(a, b, num=50, **k):
    a, b = Sym.of(a), Sym.of(b)
    if num == 1:
        return asym([a])
    return asym([a + (b - a) * Sym.of(i) / (num - 1) for i in range(num)])


def f_kron(a, b):
    a, b = asym(a), asym(b)
    return asym(rnp.block([[raw(a[i, j] * b) for j in range(a.shape[1])] for i in range(a.shape[0])]))


def f_outer(a, b, out=None):
    a, b = asym(a).ravel(), asym(b).ravel()
    return from_mat([[x * y for y in b] for x in a], (a.size, b.size))


def f_trace(a, **k):
    return sum_(list(rnp.diagonal(raw(a))))


def f_einsum(sub, *ops, **k):
    k.pop('optimize', None)
    r = rnp.einsum(sub, *[raw(asym(o)) for o in ops])
    return wrap(r)


def f_tensordot(a, b, axes=2):
    r = rnp.tensordot(raw(asym(a)), raw(asym(b)), axes)
    return wrap(r)


def f_isscalar(x):
    return isinstance(x, Sym) or rnp.isscalar(x)


def f_isreal(x):
    return rnp.ones(rnp.shape(x), dtype=bool)


def f_block(arrs):
    def plain(a):
        return [plain(x) for x in a] if isinstance(a, list) else raw(asym(a))
    return wrap(rnp.block(plain(arrs)))


def f_reshape(a, newshape=None, order='C', shape=None, **k):
    a = asym(a) if not isinstance(a, rnp.ndarray) else a
    s = newshape if newshape is not None else shape
    return a.reshape(s, order=order)


def f_block_stack(name):
    fn = getattr(rnp, name)

    def g(tup, *a, **k):
        k.pop('dtype', None)
        k.pop('casting', None)
        tup = list(tup)
        if tup and all(isinstance(t, rnp.ndarray) and is_int(t) for t in tup) and any(isinstance(t, IntSymArray) for t in tup):
            return wrap(fn([raw(t) for t in tup], *a, **k)).view(IntSymArray)
        if any(isinstance(t, rnp.ndarray) and rdt(t) == object or has_sym(t) for t in tup):
            tup = [t if isinstance(t, rnp.ndarray) and rdt(t) == object else asym(t) for t in tup]
            return wrap(fn([t.view(rnp.ndarray) for t in tup], *a, **k))
        r = fn(tup, *a, **k)
        if isinstance(r, rnp.ndarray) and rdt(r).kind == 'f':
            return lift(r)
        return wrap(r)
    return g


def f_delete(arr, obj, axis=None):
    return wrap(rnp.delete(raw(arr), key(obj), axis))


def f_insert(arr, obj, values, axis=None):
    return wrap(rnp.insert(raw(arr), key(obj), raw(asym(values)), axis))


def f_take(a, idx, axis=None, **k):
    return wrap(rnp.take(raw(a), key(idx) if not isinstance(idx, rnp.ndarray) else key(idx), axis=axis))


def f_copy(a, **k):
    return asym(a) if not isinstance(a, SymArray) else a.copy()


def f_fill_diagonal(a, v, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = v if not isinstance(v, rnp.ndarray) else v[i]


def f_norm(x, ord=None, axis=None, keepdims=False):
    x = raw(x)
    if not isinstance(x, rnp.ndarray):
        return abs(Sym.of(x))

    def vec(xs):
        xs = [Sym.of(v) for v in xs]
        if ord in (None, 2, 'fro'):
            return L.norm2(xs)
        if ord == 1:
            return sum_([abs(v) for v in xs])
        if ord == rnp.inf:
            return S.E.sym_max([abs(v) for v in xs]) if xs else ZERO
        if ord == -rnp.inf:
            return S.E.sym_min([abs(v) for v in xs])
        if ord == 0:
            return Sym.of(sum(1 for v in xs if bool(v != 0)))
        raise Unsupported('norm of order %r' % (ord,))
    if axis is None:
        if x.ndim == 1 or ord in (None, 'fro'):
            return vec(list(x.ravel()))
        if x.ndim == 2 and ord in (1, rnp.inf):
            rows = x if ord == rnp.inf else x.T
            return S.E.sym_max([sum_([abs(Sym.of(v)) for v in r]) for r in rows])
        if x.ndim == 2 and ord == 2 and min(x.shape) == 1:
            return L.norm2([Sym.of(v) for v in x.ravel()])
        raise Unsupported('matrix norm')
    return along(vec, x, axis, keepdims)


def square(x, what):
    x = raw(x)
    if x.ndim != 2 or x.shape[0] != x.shape[1]:
        raise RLinAlgError('Last 2 dimensions of the array must be square')
    return mat(x)


def l_inv(x, **k):
    M = square(x, 'inv')
    try:
        if len(M) > 3 and not L.const(M):
            return lazy_inv(M)
        return from_mat(L.inv(M), (len(M), len(M)))
    except L.LinAlgSingular:
        raise RLinAlgError('Singular matrix')


def lazy_inv(M):
    """inverse of a large symbolic matrix: fresh entries, defined by M X = X M = I when used."""
    n = len(M)
    E = S.E
    kk = ('inv', tuple(tuple(x.key() for x in r) for r in M))
    X = E.memo.get(kk)
    if X is None:
        X = [[E.fresh('inv') for _ in range(n)] for _ in range(n)]
        facts = []
        for P in (L.mul(M, X), L.mul(X, M)):
            for i in range(n):
                for j in range(n):
                    facts.append(cmp0(P[i][j] - (1 if i == j else 0), 'eq'))
        E.lazy_facts([x for r in X for x in r], facts)
        E.note('inverse of a symbolic %dx%d matrix: taken as nonsingular' % (n, n))
        E.memo[kk] = X
    return from_mat(X, (n, n))


def l_solve(a, b, **k):
    M = square(a, 'solve')
    X = l_inv(from_mat(M, (len(M), len(M))))
    return dot(X, b)


def l_det(a):
    return L.det(square(a, 'det'))


def l_matrix_rank(a, *x, **k):
    a = raw(a)
    if a.ndim < 2:
        return int(any(bool(truth(v)) for v in a.ravel()))
    if 0 in a.shape:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    return L.rank(mat(a))


def l_pinv(a, *x, **k):
    a = raw(a)
    return from_mat(L.pinv(mat(a), a.shape[0], a.shape[1]), (a.shape[1], a.shape[0]))


def l_matrix_power(a, n):
    M = square(a, 'power')
    if n < 0:
        return l_matrix_power(l_inv(a), -n)
    R = L.eye(len(M))
    for _ in range(int(n)):
        R = L.mul(R, M)
    return from_mat(R, (len(M), len(M)))


def l_multi_dot(arrs, **k):
    r = arrs[0]
    for a in arrs[1:]:
        r = dot(r, a)
    return r


def l_svd(a, full_matrices=True, compute_uv=True, **k):
    a = raw(a)
    m, n = a.shape
    M = mat(a)
    q = min(m, n)
    if m == 0 or n == 0:
        if m == 0 and n > 0:
            return f_zeros((0, 0)), f_zeros(0), f_eye(n)
        return f_eye(m), f_zeros(0), f_zeros((0, 0))
    Vt, r = L.orth_frame(M, n)
    if m == 1 and r:
        s = [L.norm2(M[0])]
    elif L.const(M):
        sv = rnp.linalg.svd(tofloat(a), compute_uv=False)
        s = [Sym.of(float(x)) if i < r else ZERO for i, x in enumerate(sv)]
    else:
        s = [Poison('singular values of a symbolic matrix') if i < r else ZERO for i in range(q)]
    sa = rnp.empty(q, dtype=object)
    for i in range(q):
        sa[i] = s[i] if i < len(s) else ZERO
    sa = sa.view(SymArray)
    if not compute_uv:
        return sa
    if m == 1 and r:
        U = f_eye(1)
    else:
        U = rnp.empty((m, m if full_matrices else q), dtype=object)
        for idx in rnp.ndindex(*U.shape):
            U[idx] = Poison('left singular vectors')
        U = U.view(SymArray)
        if r >= 1 and m > 1:
            # only the span of the leading right singular vectors is exact
            pass
    V = from_mat(Vt, (n, n))
    if not full_matrices:
        V = V[:q]
    return U, sa, V


def l_qr(a, mode='reduced', **k):
    a = raw(a)
    m, n = a.shape
    M = mat(a)
    cols = [[M[i][j] for i in range(m)] for j in range(n)]
    kk = min(m, n)
    # Gram-Schmidt; a dependent column gets an arbitrary completion (numpy's choice is unspecified)
    Q = []
    R = [[ZERO] * n for _ in range(kk)]
    for j in range(n):
        v = cols[j]
        for i, q in enumerate(Q):
            c = L.dotv(q, v)
            R[i][j] = c
            v = [x - c * y for x, y in zip(v, q)]
        if len(Q) < kk:
            nv = L.norm2(v)
            zero = (nv.const == 0) if nv.is_const else bool(nv == 0)
            if zero:
                # any unit vector orthogonal to the previous ones completes Q
                w = [S.E.fresh('qr') for _ in range(m)]
                S.E.add(cmp0(L.dotv(w, w) - 1, 'eq'))
                for q in Q:
                    S.E.add(cmp0(L.dotv(w, q), 'eq'))
                Q.append(w)
                continue
            R[len(Q)][j] = nv
            Q.append([x / nv for x in v])
    Rm = from_mat(R, (kk, n))
    if mode == 'r':
        return Rm
    return from_mat(L.tr(Q), (m, kk)), Rm


def l_cholesky(a, lower=True, **k):
    M = square(a, 'cholesky')
    n = len(M)
    Lm = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        d = M[j][j]
        for k_ in range(j):
            d = d - Lm[j][k_] * Lm[j][k_]
        pos = (d.const > 0) if d.is_const else bool(d > 0)
        if not pos:
            raise RLinAlgError('Matrix is not positive definite')
        Lm[j][j] = S.E.sym_sqrt(d)
        for i in range(j + 1, n):
            s = M[i][j]
            for k_ in range(j):
                s = s - Lm[i][k_] * Lm[j][k_]
            Lm[i][j] = s / Lm[j][j]
    return from_mat(Lm, (n, n))


def l_lstsq(a, b, rcond=None, **k):
    a_ = raw(a)
    X = dot(l_pinv(a_), b)
    return X, Poison('lstsq residuals'), L.rank(mat(a_)), Poison('lstsq singular values')


def l_eigvals(a, **k):
    M = square(a, 'eig')
    n = len(M)
    if L.const(M):
        w = rnp.linalg.eigvals(tofloat(raw(a)))
        return w
    if n == 1:
        return asym([M[0][0]])
    if all(not M[i][j].num for i in range(n) for j in range(i)) or \
       all(not M[i][j].num for i in range(n) for j in range(i + 1, n)):
        return asym([M[i][i] for i in range(n)])
    if n == 2:
        raise Unsupported('eigenvalues of a symbolic matrix')
    raise Unsupported('eigenvalues of a symbolic matrix')


def l_eig(a, **k):
    a_ = raw(a)
    M = square(a, 'eig')
    if L.const(M):
        w, v = rnp.linalg.eig(tofloat(a_))
        return w, v
    return l_eigvals(a), Poison('eigenvectors of a symbolic matrix')


def l_eigh(a, *x, **k):
    M = square(a, 'eigh')
    if L.const(M):
        return rnp.linalg.eigh(tofloat(raw(a)))
    return l_eigvals(a), Poison('eigenvectors of a symbolic matrix')


def l_eigvalsh(a, *x, **k):
    return l_eigh(a)[0]


def l_cond(a, *x, **k):
    raise Unsupported('condition number')


def l_slogdet(a):
    d = l_det(a)
    raise Unsupported('slogdet')


LINALG = {
    'inv': l_inv, 'solve': l_solve, 'det': l_det, 'matrix_rank': l_matrix_rank, 'pinv': l_pinv, 'norm': f_norm,
    'matrix_power': l_matrix_power, 'svd': l_svd, 'qr': l_qr, 'cholesky': l_cholesky, 'lstsq': l_lstsq,
    'eig': l_eig, 'eigvals': l_eigvals, 'eigh': l_eigh, 'eigvalsh': l_eigvalsh, 'multi_dot': l_multi_dot,
    'cond': l_cond, 'slogdet': l_slogdet,
}


class _R_(object):
    def __init__(self, real, axis_fn):
        self.real = real

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, str) for x in ks):
            r = self.real[tuple(raw(x) if isinstance(x, rnp.ndarray) else x for x in ks)]
            return wrap(r)
        if all(not has_sym(x) for x in ks):
            r = self.real[k]
            return lift(r) if rdt(r).kind == 'f' else wrap(r)
        conv = tuple((x.view(rnp.ndarray) if isinstance(x, SymArray) else
                      (obj1(x) if isinstance(x, Sym) else x)) for x in ks)
        return wrap(self.real[conv])


def obj1(x):
    a = rnp.empty(1, dtype=object)
    a[0] = x
    return a


FUNCS = {
    'zeros': f_zeros, 'ones': f_ones, 'full': f_full, 'empty': f_empty, 'zeros_like': f_zeros_like,
    'ones_like': f_ones_like, 'empty_like': f_zeros_like, 'full_like': f_full_like, 'eye': f_eye,
    'identity': f_identity, 'array': f_array, 'asarray': f_asarray, 'asanyarray': f_asarray,
    'ascontiguousarray': f_asarray, 'asfarray': f_asarray, 'max': f_max, 'amax': f_max, 'min': f_min, 'amin': f_min,
    'all': f_all, 'any': f_any, 'alltrue': f_all, 'sum': f_sum, 'prod': f_prod, 'mean': f_mean,
    'average': f_average, 'nonzero': f_nonzero, 'where': f_where, 'argmax': f_argmax, 'argmin': f_argmin,
    'argsort': f_argsort, 'sort': f_sort, 'round': f_round, 'around': f_round, 'clip': f_clip,
    'isclose': f_isclose, 'allclose': f_allclose, 'array_equal': f_array_equal, 'array_equiv': f_array_equal,
    'count_nonzero': f_count_nonzero, 'diag': f_diag, 'unique': f_unique, 'select': f_select, 'linspace': f_linspace, 'kron': f_kron,
    'outer': f_outer, 'trace': f_trace, 'einsum': f_einsum, 'tensordot': f_tensordot, 'isscalar': f_isscalar,
    'isreal': f_isreal, 'block': f_block, 'dot': dot, 'matmul': matmul, 'inner': lambda a, b: dot(a, asym(b).T),
    'vdot': lambda a, b: dot(asym(a).ravel(), asym(b).ravel()), 'reshape': f_reshape, 'delete': f_delete,
    'insert': f_insert, 'take': f_take, 'copy': f_copy, 'fill_diagonal': f_fill_diagonal,
    'flatnonzero': lambda a: f_nonzero(asarr(a).ravel())[0],
    'argwhere': lambda a: rnp.transpose(f_nonzero(a)),
    'nanmax': f_max, 'nanmin': f_min, 'nansum': f_sum,
}
for _n in ('vstack', 'hstack', 'concatenate', 'column_stack', 'row_stack', 'stack', 'dstack'):
    FUNCS[_n] = f_block_stack(_n)


def asarr(a):
    return a if isinstance(a, rnp.ndarray) else asym(a)


FLOAT = None     # set by loader: the stand-in for builtins.float


class Shim(types.ModuleType):
    def __init__(self, name, real, table, extra=None):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_extra'] = extra or {}
        if hasattr(real, '__path__'):
            self.__dict__['__path__'] = []

    def __getattr__(self, n):
        if n in self._extra:
            return self._extra[n]
        if n in self._table:
            return self._table[n]
        v = getattr(self._real, n)
        if isinstance(v, rnp.ufunc):
            return wrap_ufunc(v)
        if isinstance(v, types.ModuleType):
            return v
        if isinstance(v, type) or not callable(v):
            return v
        return wrap_fn(v)


def wrap_ufunc(u):
    def f(*a, **k):
        if any(has_sym(x) or isinstance(x, B) for x in a):
            i = [asym(x) if isinstance(x, (list, tuple)) else x for x in a]
            if any(isinstance(x, SymArray) for x in i):
                return u(*i, **k)
            j = [asym([x]) if isinstance(x, (Sym, B)) else x for x in i]
            r = u(*j, **k)
            if not any(isinstance(x, rnp.ndarray) for x in i) and isinstance(r, rnp.ndarray):
                return r.view(rnp.ndarray)[0] if rdt(r) == object else r[0]
            return r
        if u.__name__ == 'sqrt' and all(is_num(x) for x in a):
            return S.E.sym_sqrt(Sym.of(a[0]))
        r = u(*a, **k)
        return r
    f.__name__ = u.__name__
    f.reduce = lambda a, *x, **k: u.reduce(asym(a) if isinstance(a, (list, tuple)) else a, *x, **k)
    f.outer = lambda a, b: wrap(emap_outer(u, a, b))
    f.accumulate = lambda a, *x, **k: wrap(u.accumulate(raw(a), *x, **k))
    f.nin = u.nin

    def at(a, idx, *b):
        for n, i in enumerate(rnp.atleast_1d(rnp.asarray(idx))):
            a[i] = f(a[i], *[(x[n] if rnp.ndim(x) else x) for x in b])
    f.at = at
    return f


def emap_outer(u, a, b):
    a, b = asym(a), asym(b)
    return u(a.reshape(a.shape + (1,) * b.ndim), b)


def wrap_fn(fn):
    def f(*a, **k):
        r = fn(*a, **k)
        return wrap(r)
    f.__name__ = getattr(fn, '__name__', 'f')
    return f


class RandomShim(types.ModuleType):
    """np.random: every draw is an arbitrary value of the documented range."""

    def __getattr__(self, n):
        if n in ('rand', 'random', 'random_sample', 'uniform', 'ranf', 'sample'):
            return lambda *a, **k: draw(n, a, k)
        if n in ('seed',):
            return lambda *a, **k: None
        if n in ('default_rng', 'RandomState'):
            return lambda *a, **k: self
        raise Unsupported('numpy.random.%s' % n)


def draw(n, a, k):
    lo, hi = ZERO, ONE
    if n == 'uniform':
        if len(a) > 0:
            lo = Sym.of(a[0])
        if len(a) > 1:
            hi = Sym.of(a[1])
        size = a[2] if len(a) > 2 else k.get('size')
    elif n == 'rand':
        size = tuple(a) if a else None
    else:
        size = a[0] if a else k.get('size')

    def one():
        if S.E.opt.get('rand'):
            # harnesses whose claim does not depend on the draw fix it (C28 covers every draw)
            S.E.memo['nrand'] = k0 = S.E.memo.get('nrand', 0) + 1
            return lo + (hi - lo) * Sym.of(Fraction((k0 * 37) % 101 * 2 + 1, 211))
        v = S.E.new_var('rand%d' % S.E.nvars)
        S.E.add(and_(cmp0(v - lo, 'ge'), cmp0(v - hi, 'lt')))
        return v
    if size is None:
        return one()
    out = rnp.empty(size, dtype=object)
    f = out.reshape(-1)
    for i in range(f.size):
        f[i] = one()
    return f.reshape(out.shape).view(SymArray)
