"""Linear MPC: optimal, admissible, None iff infeasible."""
from ..runner import Harness
from . import ocp

BOUNDS = 'nx, nu <= 2, horizon N <= 20 (nx = nu = 1), 10 (nx = 2), nx = 5 and nu = 3 with N = 2; up to 12 stage rows and 3 terminal rows; constant rational dynamics, weights and normals; state, right-hand sides (stage and terminal) and the competing input sequence are free reals'
OUTSIDE = 'other dynamics, weights and normals; domains and terminal sets with equalities (documented as inequality-only); states within 1e-6 of infeasibility'
ASSUMPTIONS = ['the QP solver meets its contract (C18)']
TOL = 1e-5


def linear(c, cfg):
    data = ocp.system(c, cfg['sys'], offset='zero', rhs=cfg.get('rhs', 'sym'))[:1]
    A, B, o, F, h = data[0]
    nx, nu = B.shape
    w = cfg.get('w', 0)
    W = (ocp.WEIGHT, ocp.WEIGHT2, ocp.WEIGHT3)
    mk = (lambda v: c.ints(v)) if cfg.get('int') else (lambda v: ocp.const(c, v))
    Q, R, Pn = (mk(W[(w + i) % 3][k]) for i, k in ((0, nx), (1, nu), (2, nx)))
    FN = mk(ocp.TERM[nx])
    if cfg.get('int'):
        s = ocp.SYS[cfg['sys']][0]
        data = [(mk(s[0]), mk(s[1]), data[0][2], mk([p + q for p, q in zip(s[3], s[4])]), data[0][4])]
    hN = c.vec('hN', FN.shape[0]) if 'rhs' not in cfg else mk([3 + i for i in range(FN.shape[0])])
    return data, nx, nu, Q, R, Pn, FN, hN


def mpc(c):
    cfg = c.cfg
    N = cfg['N']
    data, nx, nu, Q, R, Pn, FN, hN = linear(c, cfg)
    A, B, o, F, h = data[0]
    seq = [0] * N
    S = c.dts.LinearSystem(A.copy(), B.copy())
    D, XN = c.geom.Polyhedron(F.copy(), h.copy()), c.geom.Polyhedron(FN.copy(), hN.copy())
    ctl = c.ctl.ModelPredictiveController(S, N, Q.copy(), R.copy(), Pn.copy(), D, XN)
    x = c.vec('x', nx)
    other = [c.vec('w%d' % t, nu) for t in range(N)]
    c.points([v for u in other for v in u])
    c.opts(qp_points=True)
    xo = ocp.roll(data, seq, x, other)
    adm = ocp.admissible(c, data, seq, xo, other, FN, hN)
    if cfg.get('hist'):
        # the controller was used before, with the same array holding another state
        y = ocp.const(c, cfg['hist'])
        for _ in range(2):
            ctl.feedforward(y)
            ctl.feedback(y)
        if cfg.get('int'):
            ctl.feedforward(c.ints(cfg['hist']))
        if cfg.get('fresh'):
            ctl.feedforward(c.vec('y', nx))
        y[:] = x
        us, V = ctl.feedforward(y)
        c.check(c.eq(y, x), 'the state given is left alone')
    elif cfg.get('fb'):
        k = ctl.feedback(x.copy())
        us, V = ctl.feedforward(x.copy())
        c.check((k is None) == (us is None), 'feedback is None iff feedforward is')
        if k is not None:
            c.check(c.eq(k, us[0]), 'feedback is the first input of feedforward')
    else:
        us, V = ctl.feedforward(x.copy())
    if us is None:
        c.check(V is None, 'no value without inputs')
        c.check(c.not_(adm), 'None only if no admissible input sequence exists')
        return
    c.check(len(us) == N and all(tuple(u.shape) == (nu,) for u in us), 'one input per step')
    xs = ocp.roll(data, seq, x, us)
    c.check(ocp.admissible(c, data, seq, xs, us, FN, hN, 0 if c.symbolic else TOL), 'the inputs respect the stage and terminal constraints along the simulated trajectory')
    c.check(c.eq(V, ocp.cost(c, Q, R, Pn, xs, us)), 'the value is the cost of the trajectory')
    c.check(c.implies(adm, c.le(V, ocp.cost(c, Q, R, Pn, xo, other))), 'no admissible input sequence costs less')
    c.check(c.eq(c.arr([t for u in S.simulate(x, us) for t in u]), c.arr([t for u in xs for t in u])), 'simulation agrees with the plan')


def pair(c):
    """two controllers built from the same arrays and sets, used in turn: each answers for its own problem, answers handed out stay as they were."""
    cfg = c.cfg
    data, nx, nu, Q, R, Pn, FN, hN = linear(c, cfg)
    A, B, o, F, h = data[0]
    S = c.dts.LinearSystem(A.copy(), B.copy())
    D, XN = c.geom.Polyhedron(F.copy(), h.copy()), c.geom.Polyhedron(FN.copy(), hN.copy())
    Ns = cfg['N']
    Rs = [R, R * 3]
    ctls = [c.ctl.ModelPredictiveController(S, N, Q, r, Pn, D, XN) for N, r in zip(Ns, Rs)]
    x, y = c.vec('x', nx), c.vec('y', nx)
    c.opts(qp_points=True)
    out = []
    for i, z in ((0, x), (1, y), (0, y), (1, x)):
        N = Ns[i]
        other = [c.vec('w%d_%d' % (len(out), t), nu) for t in range(N)]
        c.points([v for u in other for v in u])
        out.append((i, z, other, ctls[i].feedforward(z.copy())))
    c.check(c.and_(c.eq(S.A, A), c.eq(S.B, B), c.eq(D.A, F), c.eq(D.b, h), c.eq(XN.A, FN), c.eq(XN.b, hN)), 'system and sets are left alone')
    for i, z, other, (us, V) in out:
        N = Ns[i]
        xo = ocp.roll(data, [0] * N, z, other)
        adm = ocp.admissible(c, data, [0] * N, xo, other, FN, hN)
        if us is None:
            c.check(c.not_(adm), 'None only if no admissible input sequence exists')
            continue
        xs = ocp.roll(data, [0] * N, z, us)
        c.check(ocp.admissible(c, data, [0] * N, xs, us, FN, hN, 0 if c.symbolic else TOL), 'the inputs respect the stage and terminal constraints along the simulated trajectory')
        c.check(c.eq(V, ocp.cost(c, Q, Rs[i], Pn, xs, us)), 'the value is the cost of the trajectory')
        c.check(c.implies(adm, c.le(V, ocp.cost(c, Q, Rs[i], Pn, xo, other))), 'no admissible input sequence costs less')


_b = [dict(sys='21a', N=1, int=True, hist=[1, 1]), dict(sys='12a', N=2, int=True), dict(sys='31a', N=2), dict(sys='13a', N=2, fb=True), dict(sys='51a', N=2), dict(sys='31a', N=4), dict(sys='11a', N=6, w=1), dict(sys='21a', N=5), dict(sys='21a', N=10, w=2), dict(sys='11a', N=20, fb=True),
      dict(sys='21a', N=3, int=True, rhs=[[5, 5, 5, 5, 1, 1]]), dict(sys='11a', N=8, rhs=[[5, 5, 1, 1]], hist=[1])]
_c = [dict(sys='11a', N=2, hist=[0]), dict(sys='11a', N=1, hist=['1/2'], fresh=True), dict(sys='21a', N=1, hist=[1, '1/2']), dict(sys='11a', N=1), dict(sys='11a', N=2, fb=True), dict(sys='12a', N=1, fb=True), dict(sys='21a', N=1), dict(sys='21a', N=2, w=1), dict(sys='12a', N=2), dict(sys='11b', N=2, w=2),
      dict(sys='21b', N=2), dict(sys='22a', N=1, w=1), dict(sys='11a', N=3), dict(sys='21b', N=3, w=2), dict(sys='22a', N=2), dict(sys='21a', N=3), dict(sys='11b', N=4)]
HARNESSES = [Harness('pair', pair, [dict(sys='11a', N=(1, 2)), dict(sys='21a', N=(2, 1)), dict(sys='12a', N=(1, 1))], witnesses=4, witness_margins=[0.125, 0.01], bound=8),
             Harness('mpc', mpc, _b + _c, witnesses=4, witness_margins=[0.125, 0.01], bound=8)]
