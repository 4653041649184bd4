"""Fixed-mode parametric programs of the hybrid controller."""
from ..runner import Harness
from . import ocp, c25

BOUNDS = 'nx <= 3, nu <= 2, up to 4 modes, horizon N <= 6; constant rational dynamics, weights and normals; state, offsets, right-hand sides and the competing input sequence are free reals; the listed mode sequences'
OUTSIDE = c25.OUTSIDE
ASSUMPTIONS = ['the LP, QP and MIQP solvers meet their contracts (C17, C18, C19)'] + c25.ASSUMPTIONS[1:]


def fixed(c):
    cfg = c.cfg
    N = cfg['N']
    data, nx, nu, Q, R, Pn, FN, hN, ctl = c25.setup(c)
    seq = list(cfg['seq'])
    x = c.vec('x', nx)
    other = [c.vec('w%d' % t, nu) for t in range(N)]
    c.points([v for u in other for v in u])
    c.opts(qp_points=True)
    xo = ocp.roll(data, seq, x, other)
    adm = ocp.admissible(c, data, seq, xo, other, FN, hN)
    for s in cfg.get('before', ()):
        # programs of other mode sequences (of any length) were asked before
        M = ctl.get_mpqp(list(s))
        c.check(tuple(M.A['u'].shape) == (sum(data[m][4].shape[0] for m in s) + hN.shape[0], nu * len(s)), 'the program has the inputs and constraints of its mode sequence')
    ask = list(seq)
    sol = ctl.get_mpqp(ask).solve(x.copy())
    c.check(ask == list(seq), 'the mode sequence given is left alone')
    if cfg.get('before'):
        M = ctl.get_mpqp(tuple(seq))
        ctl.get_mpqp(list(cfg['before'][0]))
        again = M.solve(x.copy())
        c.check((again['min'] is None) == (sol['min'] is None), 'asking again gives the same answer')
        if again['min'] is None:
            c.check(c.not_(adm), 'infeasible only if no admissible input sequence follows these modes')
            return
        sol = again
    if sol['min'] is None:
        c.check(c.not_(adm), 'infeasible only if no admissible input sequence follows these modes')
        return
    u = sol['argmin']
    us = [u[nu * t:nu * (t + 1)] for t in range(N)]
    xs = ocp.roll(data, seq, x, us)
    eps = 0 if c.symbolic else 1e-4
    c.check(u.shape == (nu * N,), 'one input per step')
    c.check(ocp.admissible(c, data, seq, xs, us, FN, hN, eps), 'the solution is admissible under these modes')
    c.check(c.eq(sol['min'], ocp.cost(c, Q, R, Pn, xs, us)), 'the value is the cost of the trajectory')
    c.check(c.implies(adm, c.le(sol['min'], ocp.cost(c, Q, R, Pn, xo, other))), 'no admissible input sequence under these modes costs less')


def value(c):
    """hybrid value = least fixed-mode value."""
    cfg = c.cfg
    N = cfg['N']
    data, nx, nu, Q, R, Pn, FN, hN, ctl = c25.setup(c)
    x = c.vec('x', nx)
    seq = c.choice('seq', cfg['others'])
    sol = ctl.get_mpqp(list(seq)).solve(x.copy())
    feas = sol['min'] is not None
    if feas:
        us = [sol['argmin'][nu * t:nu * (t + 1)] for t in range(N)]
        xs = ocp.roll(data, seq, x, us)
        c.points(c25.point(c, data, seq, xs, us, nx))
    uh, xh, sh, V = ctl.feedforward(x.copy())
    if uh is None:
        c.check(not feas, 'the hybrid problem is feasible if some mode sequence is')
        return
    e2 = 0 if c.symbolic else 1e-3
    if feas:
        c.check(c.le(V, sol['min'] + e2), 'the hybrid value is not above the value of any mode sequence')
    if c.symbolic:
        # the states returned are those of the simulation (checked), so the two costs are the same number (congruence)
        xr = ocp.roll(data, [int(m) for m in sh], x, uh)
        c.check(c.and_(*[c.eq(a, b) for a, b in zip(xr, xh)]), 'the returned states follow the returned modes')
        c.fact(c.eq(ocp.cost(c, Q, R, Pn, xr, uh), ocp.cost(c, Q, R, Pn, xh, uh)))
    c.points([v for u in uh for v in u])
    c.opts(qp_points=True)
    sol = ctl.get_mpqp([int(m) for m in sh]).solve(x.copy())
    if c.symbolic:
        c.check(sol['min'] is not None, 'the returned mode sequence is feasible')
        if sol['min'] is None:
            return
    elif sol['min'] is None:
        return                # borderline in floating point
    c.check(c.le(sol['min'], V + e2), 'the value of the returned mode sequence is not above the hybrid value')


_f = [dict(sys='i', N=2, seq=(1, 0), int=True), dict(sys='s', N=2, seq=(0, 1), hfree=[0, 3]), dict(sys='q', N=4, seq=(3, 1, 0, 2), hfree=[0, 1, 2, 3]), dict(sys='b', N=6, seq=(0, 1, 1, 0, 1, 0), before=[(0, 1, 1, 0, 1), (0, 1, 1, 0, 1, 1)]),
      dict(sys='b', N=2, seq=(1, 0), before=[(1,), (0, 1), (1, 0, 0), (0, 0)]), dict(sys='e', N=1, seq=(1,), before=[(1, 0), (2,), (0,), (1, 0, 0)]), dict(sys='c', N=1, seq=(0,), before=[(1,), (0, 0), (0,)]), dict(sys='b', N=1, seq=(1,)), dict(sys='b', N=2, seq=(0, 1)), dict(sys='c', N=1, seq=(1,), w=1), dict(sys='d', N=2, seq=(1, 0)), dict(sys='e', N=2, seq=(2, 0), w=2), dict(sys='c', N=2, seq=(1, 0)),
      dict(sys='b', N=3, seq=(1, 0, 1)), dict(sys='e', N=3, seq=(0, 1, 2)), dict(sys='c', N=2, seq=(0, 1), w=2)]
_v = [dict(sys='a', N=1, others=c25.al(1, 1)), dict(sys='b', N=1, others=c25.al(2, 1)), dict(sys='d', N=1, others=c25.al(2, 1), w=1), dict(sys='c', N=1, others=c25.al(2, 1)), dict(sys='b', N=2, others=[[0, 1], [1, 0]]),
      dict(sys='b', N=2, others=c25.al(2, 2), w=1), dict(sys='e', N=1, others=c25.al(3, 1))]
HARNESSES = [
    Harness('fixed', fixed, _f, witnesses=4, witness_margins=[0.125, 0.01], bound=8),
    Harness('value', value, _v, quick=None, witnesses=4, witness_margins=[0.125, 0.01], bound=8),
]
