"""Condensed optimal control problem = optimal control problem."""
from itertools import product
from ..runner import Harness
from . import ocp

BOUNDS = 'nx, nu <= 2 (5 with constant dynamics), up to 3 modes (6), integer arrays, several problems condensed for one system, up to 6 constraint rows per mode, horizon N <= 3 (12 with constant data), all mode sequences of the listed lengths; dynamics, offsets, weights, constraint rows and right-hand sides free reals for nx = nu = 1 and nx = 2, N = 1; constant rational dynamics with free offsets, right-hand sides, states and inputs beyond'
OUTSIDE = 'domains and terminal sets with equality constraints (documented as inequality-only); larger dimensions, longer horizons; weights for which the Hessian in u is singular'


def condensed(c):
    cfg = c.cfg
    nx, nu, nm, seq = cfg['nx'], cfg['nu'], cfg['nm'], list(cfg['seq'])
    N = len(seq)
    data = []
    for i in range(nm):
        m = 2 + i
        data.append((c.mat('A%d' % i, nx, nx), c.mat('B%d' % i, nx, nu), c.vec('c%d' % i, nx), c.mat('F%d' % i, m, nx + nu), c.vec('h%d' % i, m)))
    Q, R, Pn = c.sym_mat('Q', nx), c.sym_mat('R', nu), c.sym_mat('P', nx)
    FN, hN = c.mat('FN', 2, nx), c.vec('hN', 2)
    prog(c, data, seq, Q, R, Pn, FN, hN, nx, nu, N)


def constant(c):
    cfg = c.cfg
    data = ocp.system(c, cfg['sys'])
    if cfg.get('int'):
        data = [tuple([c.ints(t) for t in s[:3]] + list(d[3:])) for d, s in zip(data, ocp.SYS[cfg['sys']])]
    nx, nu = data[0][1].shape
    seq = list(cfg['seq'])
    if len(seq) > 4:
        # long horizons: constant offsets and right-hand sides, free state and inputs
        data = [(A, B, ocp.const(c, s[2]), F, ocp.const(c, [3 + i + j for j in range(F.shape[0])])) for i, ((A, B, o, F, h), s) in enumerate(zip(data, ocp.SYS[cfg['sys']]))]
    Q, R, Pn = (ocp.const(c, w[k]) for w, k in ((ocp.WEIGHT, nx), (ocp.WEIGHT2, nu), (ocp.WEIGHT3, nx)))
    if cfg.get('int'):
        Q, R, Pn = c.ints(ocp.WEIGHT[nx]), c.ints(ocp.WEIGHT2[nu]), c.ints(ocp.WEIGHT3[nx])
    if cfg.get('same'):
        Pn = Q                # one array in two roles
    FN = ocp.const(c, ocp.TERM[nx])
    hN = c.vec('hN', FN.shape[0])
    prog(c, data, seq, Q, R, Pn, FN, hN, nx, nu, len(seq))


def prog(c, data, seq, Q, R, Pn, FN, hN, nx, nu, N):
    S = ocp.pwa(c, data)
    XN = c.geom.Polyhedron(FN.copy(), hN.copy())
    x0 = c.vec('x0', nx)
    us = [c.vec('u%d' % t, nu) for t in range(N)]
    xs = ocp.roll(data, seq, x0, us)
    q, rr, p = (Q.copy(), R.copy(), Pn.copy()) if Pn is not Q else (Q, R, Q)
    earlier = []
    for s in c.cfg.get('before', ()):
        # other problems were condensed for the same system
        earlier.append((list(s), c.ctl.condense_optimal_control_problem(S, q, rr, p, XN, list(s))))
    give = list(seq)
    r = c.call(c.ctl.condense_optimal_control_problem, S, q, rr, p, XN, tuple(give) if c.cfg.get('tuple') else give)
    c.check(give == list(seq), 'the mode sequence is left alone')
    if not r.ok and r.raised(c.np.linalg.LinAlgError):
        c.skip()              # singular Hessian: outside the claim
    if not r.ok:
        raise r.exc
    M = r.value
    c.check(c.and_(c.eq(q, Q), c.eq(rr, R), c.eq(p, Pn), c.eq(XN.A, FN), c.eq(XN.b, hN)), 'the weights and the terminal set are left alone')
    same(c, M, data, S, seq, Q, R, Pn, FN, hN, x0, us)
    for s, E in earlier:
        same(c, E, data, S, s, Q, R, Pn, FN, hN, x0, (us * 9)[:len(s)], ' (condensed earlier)')


def same(c, M, data, S, seq, Q, R, Pn, FN, hN, x0, us, tag=''):
    xs = ocp.roll(data, seq, x0, us)
    U = c.arr([v for u in us for v in u])
    V = (U.dot(M.H['uu']).dot(U) + 2 * U.dot(M.H['ux']).dot(x0) + x0.dot(M.H['xx']).dot(x0)) / 2 + M.f['u'].dot(U) + M.f['x'].dot(x0) + M.g
    c.check(c.eq(V, ocp.cost(c, Q, R, Pn, xs, us)), 'the objective is the cost of the trajectory' + tag)
    con = c.le(M.A['u'].dot(U) + M.A['x'].dot(x0), M.b)
    adm = ocp.admissible(c, data, seq, xs, us, FN, hN)
    c.check(c.implies(con, adm), 'the constraints of the program imply every stage and the terminal constraint' + tag)
    c.check(c.implies(adm, con), 'an admissible trajectory satisfies the constraints of the program' + tag)
    c.check(c.and_(c.eq(M.H['uu'], M.H['uu'].T), c.eq(M.H['xx'], M.H['xx'].T)), 'the Hessian blocks are symmetric' + tag)
    for (A, B, o, F, h), s, D in zip(data, S.affine_systems, S.domains):
        c.check(c.and_(c.eq(s.A, A), c.eq(s.B, B), c.eq(s.c, o), c.eq(D.A, F), c.eq(D.b, h)), 'condensing leaves the system alone')


def seqs(nm, N):
    return list(product(range(nm), repeat=N))


_m = [dict(sys='11c', seq=(2, 1, 0), int=True), dict(sys='21a', seq=(0, 0), int=True), dict(sys='22a', seq=(1, 0), int=True), dict(sys='11b', seq=(1, 0), before=((0, 1), (1,))), dict(sys='21b', seq=(0, 1), before=((1, 1, 0), (0, 1))),
      dict(sys='22a', seq=(1,), before=((0, 1),)), dict(sys='11c', seq=(0, 1), same=True), dict(sys='21b', seq=(1, 0), same=True), dict(sys='11b', seq=(0, 1), tuple=True), dict(sys='22a', seq=(0, 0), before=((0, 0),), same=True),
      dict(sys='11a', seq=(0,) * 6), dict(sys='21a', seq=(0,) * 8), dict(sys='11b', seq=(0, 1, 1, 0, 1)), dict(sys='11c', seq=(2, 1, 0, 0, 1, 2, 2)), dict(sys='21b', seq=(1, 0, 0, 1, 1, 0)), dict(sys='22a', seq=(1, 0, 1, 1, 0)),
      dict(sys='11a', seq=(0,) * 12), dict(sys='11b', seq=(0, 1) * 5), dict(sys='31a', seq=(0, 1, 0)), dict(sys='31a', seq=(1,) * 6), dict(sys='13a', seq=(0, 1)), dict(sys='51a', seq=(0, 0)), dict(sys='1x6', seq=(5, 0, 3, 2, 4, 1))]
_s = [dict(nx=1, nu=1, nm=1, seq=(0,)), dict(nx=1, nu=1, nm=2, seq=(0, 1)), dict(nx=1, nu=1, nm=2, seq=(1, 0)), dict(nx=2, nu=1, nm=2, seq=(1,)), dict(nx=1, nu=2, nm=1, seq=(0,)),
      dict(nx=1, nu=1, nm=2, seq=(1, 0, 1)), dict(nx=2, nu=2, nm=1, seq=(0,)), dict(nx=2, nu=1, nm=2, seq=(1, 0)), dict(nx=1, nu=1, nm=3, seq=(2, 0, 1)), dict(nx=1, nu=2, nm=2, seq=(0, 1))]
_k = [dict(sys='11b', seq=s) for s in ((0,), (1, 0), (0, 1, 1))] + [dict(sys='21b', seq=s) for s in ((1, 0), (0, 1, 0))] + \
     [dict(sys='12a', seq=(0, 0)), dict(sys='22a', seq=(0, 1)), dict(sys='22a', seq=(1, 1, 0)), dict(sys='11c', seq=(2, 1, 0)), dict(sys='21a', seq=(0, 0, 0)), dict(sys='11c', seq=(0, 2, 2, 1))] + \
     [dict(sys='11c', seq=s) for s in seqs(3, 3)] + [dict(sys='21b', seq=s) for s in seqs(2, 4)] + [dict(sys='22a', seq=s) for s in seqs(2, 3)]
HARNESSES = [
    Harness('condensed', condensed, _s, quick=9, witnesses=2, margins=[0]),
    Harness('constant', constant, _m + _k, quick=60, witnesses=2),
]
