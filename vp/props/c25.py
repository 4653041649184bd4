"""Hybrid MPC = optimal control of the PWA system."""
from itertools import product
from ..runner import Harness
from . import ocp

BOUNDS = 'nx <= 3, nu <= 2, up to 4 modes, horizon N <= 4; constant rational dynamics, weights and normals; state, offsets, right-hand sides of domains and terminal set and the competing input sequence are free reals; the solver may return any mode sequence, competitors run over every mode sequence'
OUTSIDE = 'other dynamics and normals; domains that are empty or on which the dynamics are unbounded (no big-M exists); domains and terminal sets with equalities; states within 1e-6 of infeasibility'
ASSUMPTIONS = ['the LP solver and the MIQP solver meet their contracts (C17, C19)', 'competitors are presented to the MIQP contract in the documented order of variables (u, z, d)']

SYS = {
    # boxes in (x, u), disjoint or overlapping depending on the right-hand sides
    'a': [([[2]], [[1]], [0], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]])],
    'b': [([['1/2']], [[-3]], [1], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]]),
          ([[-1]], [[2]], [-2], [[1], [-1], [1], [0]], [[0], [1], [-1], [-1]])],
    'c': [([[1, 1], [0, 1]], [[0], [1]], [0, 0], [[1, 0], [-1, 0], [0, 1], [0, -1], [0, 0], [0, 0]], [[0], [0], [0], [0], [1], [-1]]),
          ([[0, 1], [-1, 2]], [[1], [-1]], [0, 1], [[1, 1], [-1, 0], [0, -1], [0, 0], [0, 0]], [[0], [0], [0], [1], [-1]])],
    'd': [([[1]], [[1, -1]], [0], [[1], [-1], [0], [0], [0]], [[0, 0], [0, 0], [-1, 0], [0, -1], [1, 1]]),
          ([[-2]], [[0, 1]], [1], [[1], [-1], [0], [0]], [[0, 0], [1, 0], [-1, 1], [0, -1]])],
    # double integrator with two modes, integers only; three states; four modes
    'i': [([[1, 1], [0, 1]], [[0], [1]], [0, 0], [[1, 0], [-1, 0], [0, 1], [0, -1], [0, 0], [0, 0]], [[0], [0], [0], [0], [1], [-1]]),
          ([[1, 1], [-1, 1]], [[0], [1]], [0, 2], [[1, 0], [-1, 0], [0, 1], [0, -1], [0, 0], [0, 0]], [[0], [0], [0], [0], [1], [-1]])],
    's': [([[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0], [0], [1]], [0, 0, 0], [[s * (i == j) for j in range(3)] for i in range(3) for s in (1, -1)] + [[0] * 3] * 2, [[0]] * 6 + [[1], [-1]]),
          ([[0, 1, 0], [0, 0, 1], [1, -1, 1]], [[1], [0], [2]], [1, 0, 0], [[s * (i == j) for j in range(3)] for i in range(3) for s in (1, -1)] + [[0] * 3] * 2, [[0]] * 6 + [[1], [-1]])],
    'q': [([[k - 2]], [[1 + k % 2]], [k], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]]) for k in range(4)],
    'e': [([[1]], [[1]], [0], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]]), ([[2]], [[-1]], [1], [[1], [-1], [0]], [[0], [1], [-1]]), ([[-1]], [[1]], [3], [[-1], [1], [1]], [[0], [1], [-1]])],
}


def data_of(c, cfg):
    out = []
    for i, (A, B, o, F, G) in enumerate(SYS[cfg['sys']]):
        A, B, F, G = ((c.ints(t) if cfg.get('int') else ocp.const(c, t)) for t in (A, B, F, G))
        FG = c.np.hstack((F, G))
        off = c.vec('c%d' % i, A.shape[0]) if cfg.get('off', True) else ocp.const(c, o)
        h = c.vec('h%d' % i, FG.shape[0])
        if 'hfree' in cfg:
            # right-hand sides constant except one per mode
            for j in range(FG.shape[0]):
                if j != cfg['hfree'][i]:
                    h[j] = 3 + (i + j) % 3
                else:
                    c.box(h[j], 0, 50)
        out.append((A, B, off, FG, h))
    return out


def setup(c):
    cfg = c.cfg
    data = data_of(c, cfg)
    nx, nu = data[0][1].shape
    w = cfg.get('w', 0)
    W = (ocp.WEIGHT, ocp.WEIGHT2, ocp.WEIGHT3)
    mk = (lambda v: c.ints(v)) if cfg.get('int') else (lambda v: ocp.const(c, v))
    Q, R, Pn = (mk(W[(w + i) % 3][k]) for i, k in ((0, nx), (1, nu), (2, nx)))
    FN = mk(ocp.TERM[nx])
    hN = c.vec('hN', FN.shape[0])
    for A, B, o, F, h in data:
        c.assume(c.feasible(F, h))
    S = ocp.pwa(c, data)
    ctl = c.ctl.HybridModelPredictiveController(S, cfg['N'], Q.copy(), R.copy(), Pn.copy(), c.geom.Polyhedron(FN.copy(), hN.copy()))
    return data, nx, nu, Q, R, Pn, FN, hN, ctl


def point(c, data, seq, xs, us, nx):
    """the competitor in the variables of the mixed-integer program."""
    s = len(data)
    u = [v for w in us for v in w]
    z, d = [], []
    for t, m in enumerate(seq):
        for i in range(s):
            z += list(xs[t + 1]) if i == m else [c.const(0)] * nx
            d.append(c.const(1 if i == m else 0))
    return u + z + d


def hybrid(c):
    cfg = c.cfg
    N = cfg['N']
    data, nx, nu, Q, R, Pn, FN, hN, ctl = setup(c)
    s = len(data)
    x = c.vec('x', nx)
    other = [c.vec('w%d' % t, nu) for t in range(N)]
    oseq = c.choice('other', cfg['others'])
    xo = ocp.roll(data, oseq, x, other)
    c.points(point(c, data, oseq, xo, other, nx))
    adm = ocp.admissible(c, data, oseq, xo, other, FN, hN)
    if cfg.get('hist'):
        # used before, the array holding another state then
        y = ocp.const(c, cfg['hist'])
        first = ctl.feedforward(y)
        y[:] = x
        r = ctl.feedforward(y)
        c.check(c.eq(y, x), 'the state given is left alone')
        if first[0] is not None:
            c.check(c.eq(first[1][0], ocp.const(c, cfg['hist'])) if cfg.get('keep') else True, 'an earlier answer stays as it was')
    else:
        r = ctl.feedforward(x.copy())
    c.check(len(r) == 4, 'inputs, states, modes and value are returned')
    us, xs, seq, V = r
    if us is None:
        c.check(xs is None and seq is None and V is None, 'every field is None if infeasible')
        c.check(c.not_(adm), 'None only if no admissible trajectory exists')
        if cfg.get('fb'):
            c.check(ctl.feedback(x.copy()) is None, 'feedback is None if feedforward is') if not c.symbolic else None
        return
    seq = [int(m) for m in seq]
    c.check(len(us) == N and len(xs) == N + 1 and len(seq) == N and all(0 <= m < s for m in seq), 'one input and mode per step, one state more')
    c.check(all(tuple(u.shape) == (nu,) for u in us) and all(tuple(v.shape) == (nx,) for v in xs), 'inputs and states have the right size')
    c.check(c.eq(xs[0], x), 'the trajectory starts at x')
    eps = 0 if c.symbolic else 1e-4
    for t, m in enumerate(seq):
        A, B, o = data[m][:3]
        nxt = A.dot(xs[t]) + B.dot(us[t]) + o
        c.check(c.and_(c.le(xs[t + 1], nxt + eps), c.ge(xs[t + 1], nxt - eps)), 'each successor follows the dynamics of its mode')
        c.check(c.le(data[m][3].dot(ocp.join(c, xs[t], us[t])), data[m][4] + eps), 'each state-input pair lies in the domain of its mode')
    c.check(c.le(FN.dot(xs[-1]), hN + eps), 'the last state lies in the terminal set')
    J = ocp.cost(c, Q, R, Pn, xs, us)
    e2 = 0 if c.symbolic else 1e-3 * (1 + abs(J))
    c.check(c.and_(c.le(V, J + e2), c.ge(V, J - e2)), 'the value is the cost of the trajectory')
    c.check(c.implies(adm, c.le(V, ocp.cost(c, Q, R, Pn, xo, other) + e2)), 'no admissible trajectory costs less')


def feedback(c):
    """feedback = first input (the solver answers twice, so the two may differ between optimal solutions: compare by contract)."""
    cfg = c.cfg
    data, nx, nu, Q, R, Pn, FN, hN, ctl = setup(c)
    x = c.vec('x', nx)
    if c.symbolic:
        k = ctl.feedback(x.copy())
        calls = [q for q in c.E.calls if q[0] == 'miqp']
        sol = calls[-1][-1]
        if sol[0] is None:
            c.check(k is None, 'feedback is None if the program is infeasible')
        else:
            c.check(k is not None and c.eq(k, c.arr(sol[0][:nu])), 'feedback is the first input')
    else:
        k = ctl.feedback(x.copy())
        us = ctl.feedforward(x.copy())[0]
        c.check((k is None) == (us is None), 'feedback is None iff feedforward is')
        if k is not None:
            c.check(c.le(abs(k - us[0]).max(), 1e-4), 'feedback is the first input')


def al(nm, N):
    return [list(s) for s in product(range(nm), repeat=N)]


_c = [dict(sys='b', N=1, others=al(2, 1), int=False, hist=[1]), dict(sys='i', N=1, others=al(2, 1), int=True), dict(sys='s', N=1, others=al(2, 1), hfree=[0, 3]), dict(sys='q', N=1, others=al(4, 1), hfree=[0, 1, 2, 3]),
      dict(sys='a', N=1, others=al(1, 1)), dict(sys='a', N=2, others=al(1, 2), w=1), dict(sys='b', N=1, others=al(2, 1)), dict(sys='b', N=2, others=al(2, 2)), dict(sys='c', N=1, others=al(2, 1), w=2),
      dict(sys='d', N=1, others=al(2, 1)), dict(sys='e', N=1, others=al(3, 1)), dict(sys='c', N=2, others=[[0, 1], [1, 0]]), dict(sys='e', N=2, others=[[2, 1], [0, 2]]),
      dict(sys='d', N=2, others=al(2, 2)), dict(sys='b', N=3, others=al(2, 3)), dict(sys='c', N=2, others=al(2, 2), w=1), dict(sys='e', N=2, others=al(3, 2)), dict(sys='i', N=3, others=[[0, 1, 0], [1, 1, 0]], int=True, hist=[1, 1]), dict(sys='b', N=4, others=[[0, 1, 0, 0], [1, 1, 0, 1]], hfree=[0, 1]), dict(sys='q', N=2, others=[[0, 3], [2, 1]], hfree=[0, 1, 2, 3])]
HARNESSES = [
    Harness('hybrid', hybrid, _c, witnesses=5, witness_margins=[0.125, 0.01], bound=8),
    Harness('feedback', feedback, [dict(sys='b', N=1), dict(sys='b', N=2), dict(sys='d', N=2), dict(sys='c', N=1)], witnesses=3, witness_margins=[0.125, 0.01], bound=8),
]
