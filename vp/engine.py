"""Path exploration by re-execution, deciding every branch and obligation with z3.

A harness is run once per feasible path.  Whenever the code under test asks for the truth
value of a symbolic condition the engine asks z3 which outcomes are possible under the path
condition and schedules the other one.  Obligations are queries `path condition and not P`.
"""
import time
from fractions import Fraction

from . import sym as S
from .sym import Sym, B, ZERO, ONE, cmp0, and_, or_, not_, Unsupported
from .z3load import z3


class PathEnd(Exception):
    """the path is infeasible or was cut by an assumption."""


class NonFinite(ArithmeticError):
    """the code divides by zero: numpy would go on with inf or nan."""


class Budget(Exception):
    pass


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.cut = 0
        self.queries = 0
        self.trivial = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.solver_s = 0.0

    def dump(self):
        return dict(self.__dict__)


_zcache = {}
_zvars = {}


def zvar(i):
    v = _zvars.get(i)
    if v is None:
        v = _zvars[i] = z3.Real('v%d' % i)
    return v


def zrat(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator)


def zpoly(p):
    k = S.p_key(p)
    r = _zcache.get(k)
    if r is None:
        terms = []
        for m in sorted(p):
            c = p[m]
            fs = []
            for v, e in m:
                fs.extend([zvar(v)] * e)
            if not fs:
                terms.append(zrat(c))
                continue
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t if c == 1 else zrat(c) * t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(terms)
        if len(_zcache) > 200000:
            _zcache.clear()
        _zcache[k] = r
    return r


_acache = {}


def apoly(p):
    """linear abstraction: every nonlinear monomial is a variable of its own."""
    k = S.p_key(p)
    r = _acache.get(k)
    if r is None:
        terms, sq = [], []
        for m in sorted(p):
            c = p[m]
            if not m:
                terms.append(zrat(c))
                continue
            if len(m) == 1 and m[0][1] == 1:
                t = zvar(m[0][0])
            else:
                t = z3.Real('mono_' + '_'.join('%d^%d' % x for x in m))
                if all(e % 2 == 0 for _, e in m):
                    sq.append(t)
            terms.append(t if c == 1 else zrat(c) * t)
        r = (z3.Sum(terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)), sq
        if len(_acache) > 200000:
            _acache.clear()
        _acache[k] = r
    return r


class Abstract(object):
    def __init__(self, eng):
        self.eng = eng
        self.sq = {}

    def poly(self, p):
        t, sq = apoly(p)
        for x in sq:
            self.sq[str(x)] = x
        return t

    def den(self, num, den):
        f = num
        for k, e in den:
            if e % 2:
                f = S.p_mul(f, self.eng.factors[k][0])
        return f

    def b(self, b):
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        if b.kind == 'pair':
            a, c = b.a
            d = a - c
            t = self.poly(d.num)
            return t == 0 if b.op == 'eq' else t != 0
        if b.kind == 'cmp':
            a = b.a
            if b.op in ('eq', 'ne'):
                t = self.poly(a.num)
                return t == 0 if b.op == 'eq' else t != 0
            t = self.poly(self.den(a.num, a.den))
            return t <= 0 if b.op == 'le' else t < 0
        if b.kind == 'int':
            return z3.BoolVal(True)
        xs = [self.b(x) for x in b.a]
        return z3.And(xs) if b.kind == 'and' else z3.Or(xs)


class Engine(object):
    def __init__(self, max_paths=4000, deadline=None, q_timeout=20000, b_timeout=3000):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.q_timeout = q_timeout      # ms, obligations
        self.b_timeout = b_timeout      # ms, branch feasibility
        self.incomplete = []
        self._n = 0

    # ------------------------------------------------------------- exploration
    def explore(self, body, on_path=None):
        """run body(self) on every feasible path; on_path(self, outcome) at each end."""
        work = [[]]
        while work:
            if self.stats.paths >= self.max_paths:
                self.incomplete.append('path limit %d reached' % self.max_paths)
                break
            if self.deadline and time.time() > self.deadline:
                self.incomplete.append('time limit reached')
                break
            prefix = work.pop()
            self._begin(prefix, work)
            S.set_engine(self)
            try:
                body(self)
                end = ('ok', None)
            except PathEnd:
                self.stats.cut += 1
                continue
            except Budget as e:
                self.incomplete.append(str(e))
                continue
            except Unsupported as e:
                end = ('unsupported', e)
            except Exception as e:       # noqa: the code under test raised
                end = ('raise', e)
            self.stats.paths += 1
            if on_path is not None:
                if on_path(self, end):
                    break
        S.set_engine(None)

    def _begin(self, prefix, work):
        self.prefix = prefix
        self.work = work
        self.trail = []          # decisions taken
        self.pc = []             # [(B, kind)]
        self.names = {}          # var id -> name
        self.inputs = []         # [(name, var id)]
        self.narrow = None
        self.choices = []        # harness choices, by name
        self.nvars = 0
        self.sq_rules = {}
        self.factors = {}
        self._fkeys = {}
        self.memo = {}
        self.sympy_map = {}
        self.linear = True
        self.solver = z3.Solver()
        self.solver.set('timeout', self.b_timeout)
        self.events = []
        self.notes = []
        self.lazy = {}           # var id -> list of facts, activated when the variable is used
        self.calls = []          # contract calls, in order
        self.ncalls = 0

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def lazy_facts(self, syms, facts):
        ids = [list(x.num)[0][0][0] for x in syms]
        cell = [facts]
        for i in ids:
            self.lazy[i] = cell

    def _activate(self, b):
        if not self.lazy or not isinstance(b, B):
            return
        for v in b_vars(b, self):
            cell = self.lazy.pop(v, None)
            if cell and cell[0]:
                facts, cell[0] = cell[0], None
                for f in facts:
                    self.add(f)

    # ------------------------------------------------------------- variables
    def new_var(self, name, is_input=False):
        i = self.nvars
        self.nvars += 1
        self.names[i] = name
        if is_input:
            self.inputs.append((name, i))
        return Sym.var(i)

    def fresh(self, hint='t'):
        return self.new_var('%s!%d' % (hint, self.nvars))

    def factor(self, p):
        k = S.p_key(p)
        f = self._fkeys.get(k)
        if f is None:
            f = len(self._fkeys)
            self._fkeys[k] = f
            self.factors[f] = (p, None)
        return f

    # ------------------------------------------------------------- constraints
    def zden(self, den):
        t = None
        for f, e in den:
            if e % 2:
                x = zpoly(self.factors[f][0])
                t = x if t is None else t * x
        return t

    def zb(self, b, m=0):
        """B -> z3; m > 0 asks for the condition with that margin."""
        if not isinstance(b, B):
            return z3.BoolVal(bool(b))
        if b.kind == 'pair':
            a, c = b.a
            if m:
                return self.zb(cmp0(a - c, b.op) if not (a - c).is_const else bool_const(a - c, b.op), m)
            if a.den or c.den:
                d = a - c
                return zpoly(d.num) == 0 if b.op == 'eq' else zpoly(d.num) != 0
            l, r = zpoly(a.num), zpoly(c.num)
            return l == r if b.op == 'eq' else l != r
        if b.kind == 'cmp':
            a = b.a
            t = zpoly(a.num)
            op = b.op
            if m and self.narrow and not any(v in self.narrow for mono in a.num for v, _ in mono):
                m = 0
            if op in ('eq', 'ne'):
                if op == 'eq':
                    return t == 0
                if m:
                    return z3.Or(t >= zrat(m), t <= -zrat(m))
                return t != 0
            d = self.zden(a.den)
            if d is not None:
                t = t * d
            if m:
                return t <= -zrat(m)
            return t <= 0 if op == 'le' else t < 0
        if b.kind == 'int':
            z = z3.IsInt(zpoly(b.a.num))
            return z if b.op else z3.Not(z)
        xs = [self.zb(x, m) for x in b.a]
        return z3.And(xs) if b.kind == 'and' else z3.Or(xs)

    def add(self, b, kind='fact'):
        if not isinstance(b, B):
            if not b:
                raise PathEnd()
            return
        self._activate(b)
        self.pc.append((b, kind))
        z = self.zb(b)
        if self.linear and not b_linear(b):
            self.linear = False
        self.solver.add(z)

    def assume(self, b, kind='assume', check=False):
        self.add(b, kind)
        if check:
            if len(self.trail) >= len(self.prefix):
                if self._check([]) == z3.unsat:
                    raise PathEnd()

    def _check(self, extra):
        if self.deadline and time.time() > self.deadline + 5:
            raise Budget('time limit reached inside a path')
        t = time.time()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            self.solver.add(*[x[0] for x in extra])
        r = self.solver.check()
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            r = self._nl([x[0] for x in extra], self.b_timeout)
        self.stats.solver_s += time.time() - t
        return r

    def _abstract(self, neg):
        """unsat already if monomials are taken as independent?"""
        a = Abstract(self)
        s = z3.Solver()
        s.set('timeout', 3000)
        for b, _ in self.pc:
            s.add(a.b(b))
        s.add(a.b(neg))
        s.add(*[x >= 0 for x in a.sq.values()])
        return s.check()

    def _nl(self, extra, timeout):
        """second opinion for nonlinear problems."""
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', timeout)
        for b, _ in self.pc:
            s.add(self.zb(b))
        s.add(*extra)
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown

    # ------------------------------------------------------------- decisions
    def branch(self, b):
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trail.append(v)
            self.add(b if v else not_(b), 'branch')
            return v
        self.stats.branches += 1
        self._activate(b)
        lin = b_linear(b)
        zt = self.zb(b)
        rt = self._check([(zt, lin)])
        if rt == z3.unsat:
            v = False
        else:
            nb = not_(b)
            rf = self._check([(self.zb(nb), lin)])
            if rf == z3.unsat:
                v = True
            else:
                v = True
                self.work.append(self.trail + [False])
        self.trail.append(v)
        self.add(b if v else not_(b), 'branch')
        return v

    def choose(self, n):
        """nondeterministic choice in range(n), every value explored."""
        k = len(self.trail)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for j in range(n - 1, 0, -1):
                self.work.append(self.trail + [j])
            self.stats.branches += 1
        self.trail.append(v)
        return v

    def feasible(self):
        return self._check([]) != z3.unsat

    # ------------------------------------------------------------- functions
    def _canon(self, s):
        return s.key()

    def sym_abs(self, s):
        if s.is_const:
            return Sym.of(abs(s.const))
        k = ('abs', s.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        k2 = ('abs', (-s).key())
        r = self.memo.get(k2)
        if r is not None:
            return r
        t = self.fresh('abs')
        self.add(or_(and_(cmp0(s, 'ge'), cmp0(t - s, 'eq')), and_(cmp0(s, 'lt'), cmp0(t + s, 'eq'))))
        self.add(cmp0(t, 'ge'))
        self.memo[k] = t
        return t

    def sym_max(self, xs):
        xs = [Sym.of(x) for x in xs]
        cs = [x for x in xs if x.is_const]
        vs = []
        seen = set()
        for x in xs:
            if not x.is_const and x.key() not in seen:
                seen.add(x.key())
                vs.append(x)
        if cs:
            c = max(cs, key=lambda z: z.const)
            vs.append(c)
        if len(vs) == 1:
            return vs[0]
        k = ('max', frozenset(x.key() for x in vs))
        r = self.memo.get(k)
        if r is not None:
            return r
        t = self.fresh('max')
        for x in vs:
            self.add(cmp0(x - t, 'le'))
        self.add(or_(*[cmp0(x - t, 'eq') for x in vs]))
        self.memo[k] = t
        return t

    def sym_min(self, xs):
        return -self.sym_max([-Sym.of(x) for x in xs])

    def sym_sqrt(self, s, sos=False):
        # sos: s is a sum of squares by construction
        if s.is_const:
            c = Fraction(s.const)
            if c < 0:
                raise NonFinite('square root of a negative number')
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n is not None and d is not None:
                return Sym.of(Fraction(n, d))
            if self.opt.get('approx'):
                # like the floating-point code: a rational within 2^-44 of the root
                self.note('square roots of constants that are not rational are replaced by rationals within 1e-13 (relative)')
                import math
                f = Fraction(math.sqrt(float(c)))
                k = 1 << max(0, 44 - int(math.floor(math.log2(float(f)))))
                return Sym.of(Fraction(round(f * k), k))
        elif not s.den and len(s.num) == 1:
            (m, c), = s.num.items()
            if all(e % 2 == 0 for _, e in m):
                base = Sym({tuple((v, e // 2) for v, e in m): 1})
                return self.sym_sqrt(Sym.of(c)) * abs(base)
        k = ('sqrt', s.key())
        r = self.memo.get(k)
        if r is not None:
            return r
        # pull out the rational content so that sqrt(4 p) = 2 sqrt(p)
        cont = Fraction(1)
        if not s.den and s.num:
            from math import gcd
            nums = [Fraction(c) for c in s.num.values()]
            g = nums[0].numerator
            l = nums[0].denominator
            for c in nums[1:]:
                g = gcd(g, c.numerator)
                l = l * c.denominator // gcd(l, c.denominator)
            g = abs(g)
            sq = 1
            for pnum, sign in ((g, 1), (l, -1)):
                f = 2
                while f * f <= pnum and f < 2000:
                    while pnum % (f * f) == 0:
                        pnum //= f * f
                        sq = sq * (Fraction(f) if sign > 0 else Fraction(1, f))
                    f += 1
                q = isqrt(pnum)
            cont = Fraction(sq)
        if cont != 1:
            r = self.sym_sqrt(s * Sym.of(1 / (cont * cont)), sos) * Sym.of(cont)
            self.memo[k] = r
            return r
        if not sos and not s.is_const and bool(cmp0(s, 'lt')):
            raise NonFinite('square root of a negative number')
        t = self.fresh('sqrt')
        (tv, _), = list(t.num)[0]
        self.add(cmp0(t, 'ge'))
        if not s.den:
            self.add(B('cmp', 'eq', Sym(S.p_add(S.p_mul_plain(t.num, t.num), S.p_scale(s.num, -1)))))
            self.sq_rules[tv] = s.num
        else:
            d = Sym(S._den_poly(s.den))
            self.add(cmp0(t * t * d - Sym(s.num), 'eq'))
        if s.is_const:
            # rational enclosure of an irrational constant: keeps linear reasoning possible
            import math
            f = math.sqrt(float(s.const))
            lo, hi = Fraction(f) * (1 - Fraction(1, 10**12)), Fraction(f) * (1 + Fraction(1, 10**12))
            self.add(cmp0(t - Sym.of(lo), 'ge'))
            self.add(cmp0(t - Sym.of(hi), 'le'))
        self.memo[k] = t
        return t

    def sym_floor(self, s):
        s = Sym.of(s)
        if s.is_const:
            return Sym.of(Fraction(s.const).__floor__())
        k = ('floor', s.key())
        if k not in self.memo:
            t = self.fresh('floor')
            self.add(B('int', True, t))
            self.add(and_(cmp0(t - s, 'le'), cmp0(s - t - 1, 'lt')))
            self.memo[k] = t
        return self.memo[k]

    def sym_round(self, s, digits=0):
        """nearest multiple of 10**-digits (either neighbour on a tie)."""
        s = Sym.of(s)
        q = Fraction(10) ** int(digits)
        if s.is_const:
            return Sym.of(Fraction(round(Fraction(s.const) * q)) / q)
        k = ('round', digits, s.key())
        if k not in self.memo:
            t = self.fresh('round')
            d = s * Sym.of(q) - t
            self.add(B('int', True, t))
            self.add(and_(cmp0(d - Sym.of(Fraction(1, 2)), 'le'), cmp0(-d - Sym.of(Fraction(1, 2)), 'le')))
            self.memo[k] = t * Sym.of(1 / q)
        return self.memo[k]

    def sym_exp(self, s):
        if s.is_const and s.const == 0:
            return ONE
        k = ('exp', s.key())
        r = self.memo.get(k)
        if r is None:
            t = self.fresh('exp')
            self.add(cmp0(t, 'gt'))
            # 1 + s <= exp(s), and exp(s) = 1 only at 0
            self.add(cmp0(s + 1 - t, 'le'))
            if not s.is_const:
                self.add(or_(cmp0(s, 'eq'), cmp0(t - 1, 'ne')))
            self.memo[k] = r = t
        return r

    def nonfinite(self, msg):
        raise NonFinite(msg)

    # ------------------------------------------------------------- obligations
    def prove(self, cond, label):
        """('proved'|'cex'|'unknown', None)"""
        self.stats.obligations += 1
        self._activate(cond)
        neg = S.not_(cond)
        lin = b_linear(neg) if isinstance(neg, B) else True
        z = self.zb(neg)
        t = time.time()
        self.stats.queries += 1
        if b_trivial(neg):
            self.stats.trivial += 1
        r = None
        if self.linear and lin:
            # often the convex part of the path is enough (fewer hypotheses: still a proof)
            ors = [b for b, _ in self.pc if has_or(b)]
            if len(ors) >= 3 and not b_trivial(neg):
                s = z3.Solver()
                s.set('timeout', 2000)
                for b, _ in self.pc:
                    if not has_or(b):
                        s.add(self.zb(b))
                s.add(z)
                if s.check() == z3.unsat:
                    r = z3.unsat
        if r is not None:
            pass
        elif self.linear and lin:
            self.solver.set('timeout', self.q_timeout)
            self.solver.push()
            self.solver.add(z)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self._abstract(neg)
            if r != z3.unsat:
                s = z3.Solver()
                s.set('timeout', max(1000, self.q_timeout // 4))
                for b, _ in self.pc:
                    s.add(self.zb(b))
                s.add(z)
                r = s.check()
        if r == z3.unknown:
            r = self._nl([z], self.q_timeout)
        if r == z3.unknown and not (self.linear and lin):
            # equalities first: solve-eqs often makes the rest easy
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            s.set('timeout', self.q_timeout)
            for b, _ in self.pc:
                s.add(self.zb(b))
            s.add(z)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        self.solver.set('timeout', self.b_timeout)
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.discharged += 1
            return 'proved'
        if r == z3.sat:
            return 'cex'
        self.stats.unknown += 1
        return 'unknown'

    MARGINS = [Fraction(1, 4), Fraction(1, 32), Fraction(1, 1000), Fraction(1, 100000), Fraction(0)]

    def models(self, neg=None, limit=3, bound=4, margins=None, timeout=5000, avoid=(), narrows=(False, True)):
        """concrete input assignments satisfying the path (and neg), robust ones first."""
        out = []
        kinds = [k for _, k in self.pc]
        ways = [True] + ([False] if 'contract' in kinds else [])
        # margins on every condition first; then only on conditions about inputs (results of library calls are often exactly at a bound)
        for narrow in narrows:
            self.narrow = frozenset(i for _, i in self.inputs) if narrow else None
            try:
                for mg in (margins or self.MARGINS):
                    if narrow and mg == 0:
                        continue
                    for full in ways:
                        r = self._model(neg, mg, bound, timeout if full else 2 * timeout, avoid, full)
                        if r is not None:
                            out.append((r, mg))
                            break
                    if len(out) >= limit:
                        return out
            finally:
                self.narrow = None
            if any(mg > 0 for _, mg in out) or neg is None:
                break
        if not out and not self.linear and neg is not None:
            out = self._abstract_models(neg, limit + 3, bound)
        return out

    def spread(self, count, bound):
        """inputs on this path near scattered targets: each input keeps its target if the path allows it."""
        import random
        rnd = random.Random(7)
        out = []
        for k in range(count):
            s = z3.Solver()
            s.set('timeout', 1500)
            for b, kind in self.pc:
                if kind == 'contract':
                    continue
                s.add(self.zb(b, Fraction(1, 100) if kind in ('assume', 'branch') else 0))
            for _, i in self.inputs:
                s.add(zvar(i) <= bound, zvar(i) >= -bound)
            self.stats.queries += 1
            if s.check() != z3.sat:
                break
            last = s.model()
            ins = list(self.inputs)
            rnd.shuffle(ins)
            for _, i in ins[:40]:
                t = Fraction(rnd.randint(-bound * 64 + 1, bound * 64 - 1), 64) + Fraction(1, 997)
                s.push()
                s.add(zvar(i) == zrat(t))
                self.stats.queries += 1
                if s.check() == z3.sat:
                    last = s.model()
                else:
                    s.pop()
            out.append(self.read(last))
        return out

    def _abstract_models(self, neg, limit, bound):
        """candidates from the linear abstraction (the replay decides whether they are counterexamples)."""
        a = Abstract(self)
        s = z3.Solver()
        s.set('timeout', 4000)
        for b, _ in self.pc:
            s.add(a.b(b))
        s.add(a.b(neg))
        s.add(*[x >= 0 for x in a.sq.values()])
        for _, i in self.inputs:
            s.add(zvar(i) <= bound, zvar(i) >= -bound)
        out = []
        for k in range(limit):
            self.stats.queries += 1
            if s.check() != z3.sat:
                break
            v = self.read(s.model())
            out.append((v, Fraction(0)))
            # move away: some input differs by at least 1/2
            s.add(z3.Or([z3.Or(zvar(i) >= zrat(v[n] + Fraction(1, 2)), zvar(i) <= zrat(v[n] - Fraction(1, 2))) for n, i in self.inputs]))
        return out

    def _model(self, neg, mg, bound, timeout, avoid, full):
        """full=False leaves out what library contracts say about their own results: the replay decides."""
        for nl in ((False,) if self.linear else (False, True)):
            s = z3.Tactic('qfnra-nlsat').solver() if nl else z3.Solver()
            s.set('timeout', timeout)
            for b, kind in self.pc:
                if kind == 'contract' and not full:
                    continue
                s.add(self.zb(b, mg if kind in ('assume', 'branch') else 0))
            if neg is not None:
                s.add(self.zb(neg, mg))
            for _, i in self.inputs:
                s.add(zvar(i) <= bound, zvar(i) >= -bound)
            for a in avoid:
                s.add(z3.Or([zvar(i) != zrat(a[n]) for n, i in self.inputs if n in a]))
            t = time.time()
            self.stats.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                return self.read(s.model())
            if r == z3.unsat:
                return None
        return None

    def read(self, m):
        vals = {}
        for name, i in self.inputs:
            v = m.eval(zvar(i), model_completion=True)
            if z3.is_rational_value(v):
                vals[name] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(25)
                vals[name] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                vals[name] = Fraction(0)
        return vals


def bool_const(d, op):
    c = d.const
    return {'eq': c == 0, 'ne': c != 0}[op]


def isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def has_or(b):
    if not isinstance(b, B):
        return False
    if b.kind == 'and':
        return any(has_or(x) for x in b.a)
    return b.kind == 'or' or b.op == 'ne'


def b_linear(b):
    if not isinstance(b, B):
        return True
    if b.kind in ('cmp', 'int'):
        return not b.a.den and S.p_degree(b.a.num) <= 1
    if b.kind == 'pair':
        return S.p_degree(b.a[0].num) <= 1 and S.p_degree(b.a[1].num) <= 1
    return all(b_linear(x) for x in b.a)


def b_trivial(b):
    if not isinstance(b, B):
        return True
    if b.kind == 'pair':
        return (b.a[0] - b.a[1]).is_const
    if b.kind in ('cmp', 'int'):
        return False
    return all(b_trivial(x) for x in b.a)


def b_vars(b, eng):
    if b.kind in ('cmp', 'int'):
        out = S.p_vars(b.a.num)
        for f, _ in b.a.den:
            out = out | S.p_vars(eng.factors[f][0])
        return out
    if b.kind == 'pair':
        return b_vars(B('cmp', 'eq', b.a[0]), eng) | b_vars(B('cmp', 'eq', b.a[1]), eng)
    out = set()
    for x in b.a:
        if isinstance(x, B):
            out |= b_vars(x, eng)
    return out


def z_lin(x):
    return x[1]
