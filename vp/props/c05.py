"""LQR: solve_dare returns the Bellman-optimal value and feedback, and refuses uncontrollable pairs."""
from itertools import combinations
from ..runner import Harness

BOUNDS = 'nx <= 3, nu <= 2; A, B free reals (constant systems with one free input entry up to nx = 6); several weights on one system; Q, R free symmetric with R, Q positive definite; any state x and input u (nx <= 2 for the Bellman identity with free matrices)'
OUTSIDE = 'the numerical algorithm of scipy.linalg.solve_discrete_are; pairs within rounding of uncontrollability (numerical rank)'
ASSUMPTIONS = ['contract: solve_discrete_are(A, B, Q, R) returns a symmetric positive semidefinite P with P = Q + A\'PA - A\'PB (R + B\'PB)^-1 B\'PA']


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = 0
    for j in range(n):
        m = det([r[:j] + r[j + 1:] for r in M[1:]])
        s = s + m * M[0][j] if j % 2 == 0 else s - m * M[0][j]
    return s


def ctrb(c, A, B):
    """some nx x nx minor of [B, AB, ...] is nonzero."""
    nx = A.shape[0]
    cols, X = [], B
    for _ in range(nx):
        cols += [[X[i, j] for i in range(nx)] for j in range(B.shape[1])]
        X = A.dot(X)
    ds = [det([[cols[j][i] for j in sub] for i in range(nx)]) for sub in combinations(range(len(cols)), nx)]
    return c.or_(*[c.not_(c.eq(d, 0)) for d in ds])


def data(c):
    nx, nu = c.cfg['nx'], c.cfg['nu']
    if 'A' in c.cfg:
        A, B = c.arr(c.cfg['A']), c.arr(c.cfg['B'])
    else:
        A, B = c.mat('A', nx, nx), c.mat('B', nx, nu)
    return nx, nu, A, B


def weights(c, nx, nu):
    Q, R = c.sym_mat('Q', nx), c.sym_mat('R', nu)
    for M, n in ((Q, nx), (R, nu)):
        c.assume(c.and_(*[c.ge(M[i, i], 0.5) for i in range(n)]))
        if n == 2:
            c.assume(c.ge(M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0], 0.25))
        if n == 3:
            c.assume(c.and_(*[c.eq(M[i, j], 0) for i in range(3) for j in range(i)]))
    return Q, R


def controllable(c):
    nx, nu, A, B = data(c)
    S = c.dts.LinearSystem(A.copy(), B.copy())
    got = S.controllable
    c.check(c.iff(c.cond(got), ctrb(c, A, B)), 'controllable iff the reachability matrix has full rank')
    c.check(bool(S.controllable) == bool(got), 'controllable gives the same answer when asked again')


def gate(c):
    nx, nu, A, B = data(c)
    Q, R = weights(c, nx, nu)
    S = c.dts.LinearSystem(A.copy(), B.copy())
    r = c.call(S.solve_dare, Q.copy(), R.copy())
    if r.ok:
        c.check(ctrb(c, A, B), 'solve_dare refuses an uncontrollable pair')
    else:
        c.check(c.and_(r.raised(ValueError), c.not_(ctrb(c, A, B))), 'solve_dare fails only for an uncontrollable pair, with a ValueError')


def bellman(c):
    nx, nu, A, B = data(c)
    if 'A' not in c.cfg:
        c.assume(ctrb(c, A, B))
    Q, R = weights(c, nx, nu)
    S = c.dts.LinearSystem(A.copy(), B.copy())
    r = c.call(S.solve_dare, Q.copy(), R.copy())
    if not r.ok:
        c.skip()        # see gate
    P, K = r.value
    G = R + B.T.dot(P).dot(B)
    c.check(c.eq(P, P.T), 'the cost-to-go is symmetric')
    c.check(c.eq(G.dot(K) + B.T.dot(P).dot(A), c.np.zeros((nu, nx))), "stationarity: (R + B'PB) K + B'PA = 0")
    c.check(c.eq(A.T.dot(P).dot(A) + Q + A.T.dot(P).dot(B).dot(K), P), "Riccati equation: P = Q + A'PA + A'PB K")
    # for every x and u: stage cost + value after u - value = 1/2 |u - K x|^2 weighted by R + B'PB
    x, u = c.vec('x', nx), c.vec('u', nu)
    xn = A.dot(x) + B.dot(u)
    e = u - K.dot(x)
    res = A.T.dot(P).dot(A) + Q + A.T.dot(P).dot(B).dot(K) - P      # zero by the previous obligation
    c.check(c.eq(x.dot(Q).dot(x) + u.dot(R).dot(u) + xn.dot(P).dot(xn) - x.dot(P).dot(x) - x.dot(res).dot(x)
                 + e.dot(G.dot(K) + B.T.dot(P).dot(A)).dot(x) * 0, e.dot(G).dot(e)),
            'Bellman: any input u costs at least as much as K x, by the exact square of their difference')


CHAIN = {n: [[1 if j == i or j == i + 1 else 0 for j in range(n)] for i in range(n)] for n in (4, 5, 6)}
BIG = {   # A, B as rows; None is a free entry
    'chain4': (CHAIN[4], [[None], [0], [0], [1]]), 'chain5': (CHAIN[5], [[0], [0], [0], [0], [None]]), 'chain6': (CHAIN[6], [[0], [0], [0], [0], [0], [1]]),
    'diag4': ([[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, -1, 0], [0, 0, 0, 3]], [[1], [None], [2], [-1]]),
    'same': ([[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[1], [3], [None]]),
    'two': ([[2, 0, 0, 0], [0, 2, 0, 0], [0, 0, 1, 1], [0, 0, 0, 1]], [[1, 0], [0, None], [0, 0], [1, 1]]),
    'zero': ([[0, 0], [0, 0]], [[1, 0], [None, 0]]), 'late': ([[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]], [[0], [None], [0], [0]]),
    'big': ([[1000, 0], [0, 1001]], [[1], [None]]), 'slow': ([[1, 0], [0, '1/2']], [[None], [1]]),
}


def big(c):
    from .ocp import num
    A, B = BIG[c.cfg['sys']]
    A = c.ints(A) if c.cfg.get('int') else c.arr(num(c, A))
    t = c.real('t')
    B = c.arr([[t if v is None else c.const(v) for v in r] for r in B])
    S = c.dts.LinearSystem(A, B)
    got = S.controllable
    c.check(c.iff(c.cond(got), ctrb(c, A, B)), 'controllable iff the reachability matrix has full rank')
    n, m = B.shape
    Q, R = c.np.eye(n) * 2, c.np.eye(m)
    r = c.call(S.solve_dare, Q, R)
    if r.ok:
        c.check(ctrb(c, A, B), 'solve_dare refuses an uncontrollable pair')
    else:
        c.check(c.and_(r.raised(ValueError), c.not_(ctrb(c, A, B))), 'solve_dare fails only for an uncontrollable pair, with a ValueError')


def riccati(c, A, B, Q, R, P, K, label):
    c.check(c.eq((R + B.T.dot(P).dot(B)).dot(K) + B.T.dot(P).dot(A), c.np.zeros((B.shape[1], A.shape[0]))), "stationarity: (R + B'PB) K + B'PA = 0" + label)
    c.check(c.eq(A.T.dot(P).dot(A) + Q + A.T.dot(P).dot(B).dot(K), P), "Riccati equation: P = Q + A'PA + A'PB K" + label)


def again(c):
    """one system, several weights; another system in between."""
    nx, nu = c.cfg['nx'], c.cfg['nu']
    mk = c.ints if c.cfg.get('int') else c.arr
    A, B = mk(c.cfg['A']), mk(c.cfg['B'])
    S = c.dts.LinearSystem(A, B)
    Q, R = weights(c, nx, nu)
    Q2, R2 = mk([[3 if i == j else 0 for j in range(nx)] for i in range(nx)]), mk([[2 if i == j else 0 for j in range(nu)] for i in range(nu)])
    q, r = Q.copy(), R.copy()
    P1, K1 = S.solve_dare(q, r)
    P2, K2 = S.solve_dare(Q2, R2)
    T = c.dts.LinearSystem(A * 2, B)
    P3, K3 = T.solve_dare(q, r)
    P6, K6 = S.solve_dare(q, R2)
    P7, K7 = S.solve_dare(q, r)
    P8, K8 = S.solve_dare(Q2, r)
    q[0, 0] = q[0, 0] + 1
    P4, K4 = S.solve_dare(q, r)
    P5, K5 = S.solve_dare(Q, R)
    riccati(c, A, B, Q, R, P1, K1, '')
    riccati(c, A, B, Q2, R2, P2, K2, ', other weights')
    riccati(c, A * 2, B, Q, R, P3, K3, ', another system')
    riccati(c, A, B, q, R, P4, K4, ', weights changed in place')
    riccati(c, A, B, Q, R, P5, K5, ', first weights again')
    riccati(c, A, B, Q, R2, P6, K6, ', same state weight, other input weight')
    riccati(c, A, B, Q, R, P7, K7, ', first weights again')
    riccati(c, A, B, Q2, R, P8, K8, ', same input weight, other state weight')
    c.check(c.and_(c.eq(r, R), c.eq(A, c.arr(c.cfg['A'])), c.eq(B, c.arr(c.cfg['B']))), 'system and weights are left alone')


def closed(c):
    """cost of the feedback: V(x) = stage cost under K + V(next)."""
    nx, nu, A, B = data(c)
    Q, R = weights(c, nx, nu)
    S = c.dts.LinearSystem(A.copy(), B.copy())
    P, K = S.solve_dare(Q.copy(), R.copy())
    Acl = A + B.dot(K)
    x = c.vec('x', nx)
    xn = S.simulate_closed_loop(x.copy(), 1, K)[1]
    c.check(c.eq(xn, Acl.dot(x)), 'closed loop step')
    res = A.T.dot(P).dot(A) + Q + A.T.dot(P).dot(B).dot(K) - P
    c.check(c.eq(Q + K.T.dot(R).dot(K) + Acl.T.dot(P).dot(Acl) - P - res,
                 (R.dot(K) + B.T.dot(P).dot(Acl)).T.dot(K).T), 'value of the feedback')


_cc = [dict(nx=2, nu=1, A=[[0, 1], [-1, 0]], B=[[0], [1]]), dict(nx=2, nu=1, A=[[1, 1], [0, 1]], B=[[0], [1]]),
       dict(nx=2, nu=2, A=[[2, 0], [1, -1]], B=[[1, 0], [0, -3]]), dict(nx=1, nu=2, A=[[3]], B=[[1, 2]]),
       dict(nx=3, nu=1, A=[[1, 1, 0], [0, 1, 1], [0, 0, 1]], B=[[0], [0], [1]])]
_f = [dict(nx=1, nu=1), dict(nx=2, nu=1), dict(nx=1, nu=2), dict(nx=2, nu=2), dict(nx=3, nu=1)]
HARNESSES = [
    Harness('controllable', controllable, _f + _cc, quick=10, witnesses=4, witness_margins=[0.125, 0.01]),
    Harness('gate', gate, _f[:3] + _cc, quick=8, witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('bellman', bellman, _f[:3] + _cc, quick=8, witnesses=3, witness_margins=[0.125, 0.01], bound=2),
    Harness('big', big, [dict(sys=s) for s in BIG] + [dict(sys=s, int=True) for s in ('chain4', 'late', 'two')], witnesses=3, witness_margins=[0.125, 0.01]),
    Harness('again', again, [dict(d, int=i) for d in _cc[:4] for i in (False, True)], witnesses=2, witness_margins=[0.125, 0.01], bound=2),
    Harness('closed', closed, _cc, quick=5, witnesses=2, witness_margins=[0.125, 0.01]),
]
