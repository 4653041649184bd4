"""Condensed dynamics reproduce step-by-step simulation."""
from itertools import product
from ..runner import Harness

BOUNDS = 'nx <= 3, nu <= 2, at most 3 modes, horizon N <= 5 (quick) / 6 (thorough); all matrix entries, the initial state and the inputs are free reals; every mode sequence of the listed length; constant matrices with free states, inputs and offsets: nx <= 6, nu <= 4, 5 modes, N <= 24; several condensations of the same object in a row'
OUTSIDE = 'larger dimensions and horizons; floating-point rounding'
ASSUMPTIONS = []


def roll(c, systems, seq, x0, us):
    xs = [x0]
    for t, m in enumerate(seq):
        A, B, o = systems[m]
        xs.append(A.dot(xs[-1]) + B.dot(us[t]) + o)
    return xs


def flat(c, xs):
    return [v for x in xs for v in x]


def pwa(c):
    nx, nu, nm, seq = c.cfg['nx'], c.cfg['nu'], c.cfg['nm'], c.cfg['seq']
    N = len(seq)
    data = [(c.mat('A%d' % i, nx, nx), c.mat('B%d' % i, nx, nu), c.vec('c%d' % i, nx)) for i in range(nm)]
    keep = [(A.copy(), B.copy(), o.copy()) for A, B, o in data]
    S = [c.dts.AffineSystem(*d) for d in data]
    dom = [c.geom.Polyhedron(c.arr([[0] * (nx + nu)]), c.arr([1])) for _ in range(nm)]
    P = c.dts.PieceWiseAffineSystem(S, dom)
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    A_bar, B_bar, c_bar = P.condense(list(seq))
    u_bar = c.arr([v for u in us for v in u], (nu * N,))
    x_bar = A_bar.dot(x0) + B_bar.dot(u_bar) + c_bar
    ref = flat(c, roll(c, keep, seq, x0, us))
    c.check(c.eq(x_bar, c.arr(ref)), 'A_bar x0 + B_bar u + c_bar is the stacked trajectory x(0..N)')
    c.check(c.and_(*[c.and_(c.eq(s.A, k[0]), c.eq(s.B, k[1]), c.eq(s.c, k[2])) for s, k in zip(P.affine_systems, keep)]),
            'condensing leaves the system unchanged')


def linear(c):
    nx, nu, N = c.cfg['nx'], c.cfg['nu'], c.cfg['N']
    A, B = c.mat('A', nx, nx), c.mat('B', nx, nu)
    S = c.dts.LinearSystem(A.copy(), B.copy())
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    zero = c.arr([0] * nx)
    ref = roll(c, [(A, B, zero)], [0] * N, x0, us)
    A_bar, B_bar = S.condense(N)
    u_bar = c.arr([v for u in us for v in u])
    c.check(c.eq(A_bar.dot(x0) + B_bar.dot(u_bar), c.arr(flat(c, ref))), 'linear: condensed = simulated')
    sim = S.simulate(x0.copy(), [u.copy() for u in us])
    c.check(len(sim) == N + 1, 'simulate returns N+1 states')
    c.check(c.eq(c.arr(flat(c, sim)), c.arr(flat(c, ref))), 'linear: simulate = recursion')
    K = c.mat('K', nu, nx)
    cl = S.simulate_closed_loop(x0.copy(), N, K.copy())
    xs = [x0]
    for t in range(N):
        xs.append(A.dot(xs[-1]) + B.dot(K.dot(xs[-1])))
    c.check(len(cl) == N + 1, 'simulate_closed_loop returns N+1 states')
    c.check(c.eq(c.arr(flat(c, cl)), c.arr(flat(c, xs))), 'closed loop: x(t+1) = (A + B K) x(t)')


def affine(c):
    nx, nu, N = c.cfg['nx'], c.cfg['nu'], c.cfg['N']
    A, B, o = c.mat('A', nx, nx), c.mat('B', nx, nu), c.vec('c', nx)
    S = c.dts.AffineSystem(A.copy(), B.copy(), o.copy())
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    ref = roll(c, [(A, B, o)], [0] * N, x0, us)
    A_bar, B_bar, c_bar = S.condense(N)
    u_bar = c.arr([v for u in us for v in u])
    c.check(c.eq(A_bar.dot(x0) + B_bar.dot(u_bar) + c_bar, c.arr(flat(c, ref))), 'affine: condensed = simulated')
    sim = S.simulate(x0.copy(), [u.copy() for u in us])
    c.check(c.eq(c.arr(flat(c, sim)), c.arr(flat(c, ref))), 'affine: simulate = recursion')


def rational(c, name, m, n):
    """a constant matrix with small, irregular rational entries."""
    return c.arr([[c.const(((7 * i + 5 * j + 3 * len(name) + ord(name[-1]) * (i + 2)) % 11 - 5) / 4.) for j in range(n)] for i in range(m)], (m, n))


def again(c):
    """the same objects asked over and over: every answer is that of its own question."""
    nx, nu, nm = c.cfg['nx'], c.cfg['nu'], c.cfg['nm']
    mk = c.mat if c.cfg.get('free') else (lambda name, m, n: rational(c, name, m, n))
    if c.cfg.get('int'):
        mk = lambda name, m, n: c.ints([[(7 * i + 5 * j + ord(name[-1]) * (i + 2)) % 7 - 3 for j in range(n)] for i in range(m)])
        data = [(mk('A%d' % i, nx, nx), mk('B%d' % i, nx, nu), c.ints([2 * i - j for j in range(nx)])) for i in range(nm)]
    else:
        data = [(mk('A%d' % i, nx, nx), mk('B%d' % i, nx, nu), c.vec('c%d' % i, nx)) for i in range(nm)]
    dom = [c.geom.Polyhedron(c.arr([[0] * (nx + nu)]), c.arr([1])) for _ in range(nm)]
    aff = [c.dts.AffineSystem(*[z.copy() for z in d]) for d in data]
    P = c.dts.PieceWiseAffineSystem(aff, dom)
    other = c.dts.PieceWiseAffineSystem(aff[::-1], dom)
    lin = [c.dts.LinearSystem(d[0].copy(), d[1].copy()) for d in data]
    x0 = c.vec('x0', nx)
    n = max(len(s) for s in c.cfg['seqs'])
    us = [c.vec('u%d' % t, nu) for t in range(n)]
    zero = c.arr([0] * nx)
    out = []
    for k, seq in enumerate(c.cfg['seqs']):
        N = len(seq)
        given = list(seq)
        ub = c.arr([v for u in us[:N] for v in u], (nu * N,))
        R = P.condense(given)
        c.check(given == list(seq), 'the mode sequence given is left alone')
        ref = c.arr(flat(c, roll(c, data, seq, x0, us)))
        c.check(c.eq(R[0].dot(x0) + R[1].dot(ub) + R[2], ref), 'pwa: condensed = simulated, whatever was condensed before')
        out.append((R, ub, ref))
        O = other.condense(list(seq))
        c.check(c.eq(O[0].dot(x0) + O[1].dot(ub) + O[2], c.arr(flat(c, roll(c, data[::-1], seq, x0, us)))), 'another system with the same modes in another order')
        m = seq[0]
        A = aff[m].condense(N)
        c.check(c.eq(A[0].dot(x0) + A[1].dot(ub) + A[2], c.arr(flat(c, roll(c, data, [m] * N, x0, us)))), 'affine: condensed = simulated, whatever was condensed before')
        L = lin[m].condense(N)
        c.check(c.eq(L[0].dot(x0) + L[1].dot(ub), c.arr(flat(c, roll(c, [data[m][:2] + (zero,)], [0] * N, x0, us)))), 'linear: condensed = simulated, whatever was condensed before')
        x1, u1 = x0.copy(), [u.copy() for u in us[:N]]
        s = lin[m].simulate(x1, u1)
        s2 = aff[m].simulate(x1, u1)
        c.check(c.and_(c.eq(x1, x0), *[c.eq(a, b) for a, b in zip(u1, us)]), 'simulating leaves the state and the inputs alone')
        c.check(c.and_(c.eq(c.arr(flat(c, s)), c.arr(flat(c, roll(c, [data[m][:2] + (zero,)], [0] * N, x0, us)))),
                       c.eq(c.arr(flat(c, s2)), c.arr(flat(c, roll(c, data, [m] * N, x0, us))))), 'simulate = recursion, whatever was simulated before')
    for R, ub, ref in out:
        c.check(c.eq(R[0].dot(x0) + R[1].dot(ub) + R[2], ref), 'answers given before stay as they were')


def long(c):
    """long horizons: constant matrices, free states, inputs and offsets."""
    nx, nu, nm, seq = c.cfg['nx'], c.cfg['nu'], c.cfg['nm'], c.cfg['seq']
    N = len(seq)
    data = [(rational(c, 'A%d' % i, nx, nx), rational(c, 'B%d' % i, nx, nu), c.vec('c%d' % i, nx)) for i in range(nm)]
    dom = [c.geom.Polyhedron(c.arr([[0] * (nx + nu)]), c.arr([1])) for _ in range(nm)]
    P = c.dts.PieceWiseAffineSystem([c.dts.AffineSystem(*[z.copy() for z in d]) for d in data], dom)
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    ub = c.arr([v for u in us for v in u])
    R = P.condense(list(seq))
    c.check(c.eq(R[0].dot(x0) + R[1].dot(ub) + R[2], c.arr(flat(c, roll(c, data, seq, x0, us)))), 'A_bar x0 + B_bar u + c_bar is the stacked trajectory x(0..N)')
    A, B, o = data[-1]
    L = c.dts.LinearSystem(A.copy(), B.copy())
    zero = c.arr([0] * nx)
    ref = c.arr(flat(c, roll(c, [(A, B, zero)], [0] * N, x0, us)))
    R = L.condense(N)
    c.check(c.eq(R[0].dot(x0) + R[1].dot(ub), ref), 'linear: condensed = simulated')
    c.check(c.eq(c.arr(flat(c, L.simulate(x0.copy(), [u.copy() for u in us]))), ref), 'linear: simulate = recursion')
    S = c.dts.AffineSystem(A.copy(), B.copy(), o.copy())
    ref = c.arr(flat(c, roll(c, [(A, B, o)], [0] * N, x0, us)))
    R = S.condense(N)
    c.check(c.eq(R[0].dot(x0) + R[1].dot(ub) + R[2], ref), 'affine: condensed = simulated')
    c.check(c.eq(c.arr(flat(c, S.simulate(x0.copy(), [u.copy() for u in us]))), ref), 'affine: simulate = recursion')
    K = rational(c, 'K', nu, nx)
    xs = [x0]
    for t in range(N):
        xs.append(A.dot(xs[-1]) + B.dot(K.dot(xs[-1])))
    c.check(c.eq(c.arr(flat(c, L.simulate_closed_loop(x0.copy(), N, K.copy()))), c.arr(flat(c, xs))), 'closed loop: x(t+1) = (A + B K) x(t)')


def sequences(nm, N):
    """mode sequences of one length: constant, one switch, one exception, periodic, mirrored, irregular."""
    out = [[m] * N for m in range(nm)]
    for t in range(1, N):
        out += [[0] * t + [nm - 1] * (N - t), [1] * t + [0] * (N - t)]
    for t in range(N):
        out += [[0] * t + [1] + [0] * (N - t - 1), [nm - 1] * t + [0] + [nm - 1] * (N - t - 1)]
    for p in ([0, 1], [1, 0, 0], [0, 1, 1], [0, nm - 1, 1, 0], [1, 0, nm - 1, 0, 1]):
        out.append((p * N)[:N])
    for k in range(5):
        s = [(t * t * (k + 1) + 3 * k * t + (t * 7 + k) // 3) % nm for t in range(N)]
        out += [s, s[:N // 2] + s[:N - N // 2][::-1], s[:-1] + s[:1]]
    uniq = []
    for s in out:
        if s not in uniq:
            uniq.append(s)
    return uniq


def sweep(c):
    """many mode sequences of one length, one after the other on one system; constant matrices, some of them of integer dtype."""
    nx, nu, nm, N = c.cfg['nx'], c.cfg['nu'], c.cfg['nm'], c.cfg['N']
    data = []
    for i in range(nm):
        mk = (lambda name, m, n: rational(c, name, m, n))
        if i in c.cfg.get('int', ()):
            mk = lambda name, m, n: c.ints([[(7 * a + 5 * b + ord(name[-1]) * (a + 2)) % 5 - 2 for b in range(n)] for a in range(m)])
        o = c.ints([i + j for j in range(nx)]) if i in c.cfg.get('into', ()) else c.vec('c%d' % i, nx)
        data.append((mk('A%d' % i, nx, nx), mk('B%d' % i, nx, nu), o))
    dom = [c.geom.Polyhedron(c.arr([[0] * (nx + nu)]), c.arr([1])) for _ in range(nm)]
    P = c.dts.PieceWiseAffineSystem([c.dts.AffineSystem(*[z.copy() for z in d]) for d in data], dom)
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    ub = c.arr([v for u in us for v in u])
    for seq in sequences(nm, N):
        R = P.condense(list(seq))
        c.check(c.eq(R[0].dot(x0) + R[1].dot(ub) + R[2], c.arr(flat(c, roll(c, data, seq, x0, us)))), 'A_bar x0 + B_bar u + c_bar is the stacked trajectory x(0..N)')
    ix = c.ints([j - 1 for j in range(nx)])
    for m in range(nm):
        A, B, o = data[m]
        S, L = c.dts.AffineSystem(A, B, o), c.dts.LinearSystem(A, B)
        iu = [c.ints([t - j for j in range(nu)]) for t in range(N)]
        for x, u in ((ix, us), (x0, iu), (ix, iu)):
            c.check(c.eq(c.arr(flat(c, S.simulate(x, u))), c.arr(flat(c, roll(c, data, [m] * N, x, u)))), 'affine: simulate = recursion, states and inputs of integer dtype')
            c.check(c.eq(c.arr(flat(c, L.simulate(x, u))), c.arr(flat(c, roll(c, [(A, B, c.arr([0] * nx))], [0] * N, x, u)))), 'linear: simulate = recursion, states and inputs of integer dtype')


def cfgs_pwa():
    q, t = [], []
    for nx, nu, nm, N in ((1, 1, 2, 4), (2, 1, 2, 3), (2, 2, 3, 2), (1, 1, 3, 3), (3, 1, 2, 2), (1, 2, 2, 2), (1, 1, 2, 1)):
        for s in product(range(nm), repeat=N):
            q.append({'nx': nx, 'nu': nu, 'nm': nm, 'seq': list(s)})
    for nx, nu, nm, N in ((1, 1, 2, 6), (2, 1, 2, 4), (1, 1, 3, 4), (2, 1, 3, 3)):
        for s in product(range(nm), repeat=N):
            t.append({'nx': nx, 'nu': nu, 'nm': nm, 'seq': list(s)})
    return q + t, len(q)


_c, _q = cfgs_pwa()
_q = len(_c)
_l = [dict(nx=a, nu=b, N=n) for a, b, n in ((1, 1, 1), (1, 1, 2), (1, 1, 5), (2, 1, 3), (2, 2, 2), (3, 1, 2), (1, 2, 3), (2, 1, 4), (3, 2, 3), (1, 1, 7))]
_a = [dict(nx=1, nu=1, nm=2, free=True, seqs=([0, 1], [1, 0], [1], [0, 1, 1], [0, 1])), dict(nx=2, nu=1, nm=2, free=True, seqs=([1, 0], [0], [0, 1], [1, 0])),
      dict(nx=2, nu=2, nm=3, seqs=([0, 1, 2], [2, 1, 0], [0, 1], [1, 1, 1], [0, 1, 2, 0], [0, 1, 2])), dict(nx=1, nu=3, nm=4, seqs=([3, 1, 0], [1, 3, 0], [3], [0, 0, 0])),
      dict(nx=2, nu=1, nm=2, int=True, seqs=([0, 1, 1], [1, 0], [0, 1, 1])), dict(nx=3, nu=2, nm=2, int=True, seqs=([1, 1], [0], [1, 0, 1]))]
_n = [dict(nx=2, nu=1, nm=2, seq=[0, 1, 1, 0, 0, 1, 0, 1, 1, 1]), dict(nx=1, nu=1, nm=3, seq=[2, 0, 1, 1, 2, 2, 0, 0, 1, 2, 1, 0]), dict(nx=4, nu=2, nm=2, seq=[1, 0, 0, 1, 1]), dict(nx=3, nu=3, nm=4, seq=[3, 2, 0, 1, 3, 3]),
      dict(nx=6, nu=1, nm=1, seq=[0, 0, 0]), dict(nx=2, nu=4, nm=5, seq=[4, 0, 3, 1, 2]), dict(nx=1, nu=1, nm=2, seq=[0, 1] * 12),
      dict(nx=2, nu=1, nm=3, seq=[0, 1, 2, 2, 1] * 6), dict(nx=8, nu=5, nm=2, seq=[0, 1, 1]), dict(nx=1, nu=1, nm=9, seq=[8, 0, 7, 3, 3, 5, 1, 2, 4, 6])]
_w = [dict(nx=1, nu=1, nm=2, N=N) for N in (3, 5, 6, 7, 8, 9, 11, 13, 16)] + [dict(nx=2, nu=1, nm=3, N=N) for N in (4, 7, 10)]
_w += [dict(nx=2, nu=2, nm=2, N=4, int=(0,)), dict(nx=1, nu=1, nm=3, N=5, int=(1,), into=(0, 1)), dict(nx=2, nu=1, nm=3, N=4, int=(0, 2), into=(0,)), dict(nx=1, nu=2, nm=2, N=6, int=(1,), into=(1,)), dict(nx=2, nu=1, nm=2, N=3, into=(0,))]
HARNESSES = [
    Harness('sweep', sweep, _w, witnesses=1, tol=1e-5),
    Harness('again', again, _a, witnesses=1, tol=1e-5),
    Harness('long', long, _n, witnesses=1, tol=1e-5),
    Harness('pwa', pwa, _c, quick=_q, witnesses=1),
    Harness('linear', linear, _l, witnesses=1),
    Harness('affine', affine, _l, witnesses=1),
]
