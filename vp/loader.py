"""Loads pympc's current sources twice: symbolically (own registry, library stand-ins) and plainly."""
import builtins
import importlib
import inspect
import os
import sys
import types
import math as rmath

import numpy as rnp
import scipy as rscipy
import scipy.linalg as rsl

from . import sym as S
from . import symnp as N
from . import symsp as P
from . import stubs
from .sym import Sym, Unsupported

REPO = os.environ.get('VP_REPO', '/repo')


class FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Sym

    def __eq__(cls, o):
        return o is cls or o is float or o is rnp.float64

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, N.SymArray):
            return Sym.of(x)
        if hasattr(x, 'free_symbols') and x.free_symbols:
            return S.from_sympy(x)
        return float(x)


N.FLOAT = FloatShim


def s_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(isinstance(x, Sym) for x in xs) and all(N.is_num(x) for x in xs):
        return S.E.sym_max(xs)
    if not xs or k:
        return max(*a, **k) if len(a) > 1 else max(xs, **k)
    return max(xs)


def s_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not k and any(isinstance(x, Sym) for x in xs) and all(N.is_num(x) for x in xs):
        return S.E.sym_min(xs)
    if not xs or k:
        return min(*a, **k) if len(a) > 1 else min(xs, **k)
    return min(xs)


def s_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def s_print(*a, **k):
    return None


def shim_modules():
    linalg = N.Shim('numpy.linalg', rnp.linalg, N.LINALG)
    rand = N.RandomShim('numpy.random')
    np_ = N.Shim('numpy', rnp, N.FUNCS, {'linalg': linalg, 'random': rand,
                                         'r_': N._R_(rnp.r_, None), 'c_': N._R_(rnp.c_, None)})
    sl = N.Shim('scipy.linalg', rsl, P.SCIPY_LINALG)
    from . import hull

    class Opt(types.ModuleType):
        def __getattr__(self, n):
            if n == 'nnls':
                return P.nnls
            if n.startswith('__'):
                raise AttributeError(n)
            return P.missing('scipy.optimize.' + n)

    class Spatial(types.ModuleType):
        def __getattr__(self, n):
            if n in hull.TABLE:
                return hull.TABLE[n]
            if n.startswith('__'):
                raise AttributeError(n)
            return P.missing('scipy.spatial.' + n)
    so, ss = Opt('scipy.optimize'), Spatial('scipy.spatial')
    sc = N.Shim('scipy', rscipy, {}, {'linalg': sl, 'optimize': so, 'spatial': ss})
    ma = N.Shim('math', rmath, P.MATH)
    from . import fakegrb
    out = {'numpy': np_, 'numpy.linalg': linalg, 'numpy.random': rand, 'scipy': sc, 'scipy.linalg': sl,
           'scipy.optimize': so, 'scipy.spatial': ss, 'math': ma, 'gurobipy': fakegrb.module()}
    return out


class World(object):
    """the symbolic copy of pympc."""

    STUBBED = {
        'pympc.optimization.solvers.pnnls': {'linear_program': stubs.linear_program,
                                             'quadratic_program': stubs.quadratic_program},
        'pympc.optimization.solvers.gurobi': {'mixed_integer_quadratic_program': stubs.mixed_integer_quadratic_program},
    }

    def __init__(self):
        self.mods = {}
        self.shims = shim_modules()
        self.encoded = set()
        self.b = dict(vars(builtins))
        self.b['__import__'] = self._import
        self.b['float'] = FloatShim
        self.b['max'] = s_max
        self.b['min'] = s_min
        self.b['print'] = s_print
        self._monitor()

    def _monitor(self):
        self.tool = None
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        for t in range(6):
            if mon.get_tool(t) is None:
                mon.use_tool_id(t, 'vp')
                self.tool = t
                break
        if self.tool is not None:
            def start(code, off):
                fn = os.path.relpath(code.co_filename, REPO)
                self.encoded.add('%s:%s' % (fn, code.co_qualname))
                return mon.DISABLE
            mon.register_callback(self.tool, mon.events.PY_START, start)

    def _watch(self, code):
        if self.tool is None:
            return
        sys.monitoring.set_local_events(self.tool, code, sys.monitoring.events.PY_START)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                self._watch(c)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        top = name.split('.')[0]
        if top == 'pympc':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and self._find(name + '.' + f):
                        self.load(name + '.' + f)
                return m
            return self.mods['pympc']
        if name in self.shims:
            return self.shims[name] if fromlist else self.shims[top]
        if top in ('matplotlib', 'mpl_toolkits'):
            m = self.shims.get(name)
            if m is None:
                m = self.shims[name] = P.Dummy(name)
                parent = self.shims.get(top)
                if parent is None:
                    parent = self.shims[top] = P.Dummy(top)
            return m if fromlist else self.shims[top]
        if top in ('numpy', 'scipy'):
            raise Unsupported('module %s' % name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.exists(base + '.py'):
            return base + '.py', False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        if name in self.mods:
            return self.mods[name]
        found = self._find(name)
        if not found:
            raise ModuleNotFoundError('No module named %r' % name)
        path, pkg = found
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.b
        self.mods[name] = m
        src = open(path).read() if os.path.exists(path) else ''
        code = compile(src, path, 'exec', dont_inherit=True)
        self._watch(code)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        for fn, stub in self.STUBBED.get(name, {}).items():
            if hasattr(m, fn):
                setattr(m, fn, dispatcher(getattr(m, fn), stub))
        return m


def dispatcher(orig, stub):
    try:
        sig = inspect.signature(orig)
    except (TypeError, ValueError):
        sig = None
    want = inspect.signature(stub).parameters

    def f(*a, **k):
        if S.E is None:
            return orig(*a, **k)
        if not S.E.opt.get('stub', True):
            if orig.__name__ == 'linear_program':
                try:
                    ba = sig.bind(*a, **k).arguments
                    S.E.opt['nnls_witness'] = stubs.lp_witness(**{n: v for n, v in ba.items() if n in want})
                    S.E.opt['nnls_kkt'] = False
                except (TypeError, ValueError):
                    pass
            try:
                return orig(*a, **k)
            finally:
                S.E.opt.pop('nnls_witness', None)
                S.E.opt.pop('nnls_kkt', None)
        if sig is not None:
            try:
                ba = sig.bind(*a, **k)
                if all(p in sig.parameters for p in want if p not in ('kw',)):
                    kk = {n: v for n, v in ba.arguments.items() if n in want}
                    return stub(**kk)
            except TypeError:
                raise
        return stub(*a, **k)
    f.__name__ = orig.__name__
    f.__vp_orig__ = orig
    return f


_world = None


def world():
    global _world
    if _world is None:
        _world = World()
    return _world


def plain(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use('Agg')
    m = importlib.import_module(name)
    assert os.path.abspath(m.__file__).startswith(os.path.abspath(REPO) + os.sep), m.__file__
    return m
