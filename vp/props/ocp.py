"""Reference model of the optimal control problem: trajectory, cost, admissibility (written from the documentation)."""

# constant PWA data with rational rows: (A, B, c, F, G) per mode
SYS = {
    # nx = nu = 1
    '11a': [([[2]], [[1]], [0], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]])],
    '11b': [([['1/2']], [[-3]], [1], [[1], [-1], [2]], [[0], [1], [-1]]),
            ([[-1]], [[2]], [-2], [[-1], [0], [0]], [[0], [1], [-1]])],
    '11d': [([[2]], [['-1/2']], [1], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]]),
            ([[-3]], [[1]], [-1], [[1], [-1], [0], [0]], [[0], [0], [1], [-1]])],
    # nx = 2, nu = 1
    '21a': [([[1, 1], [0, 1]], [[0], [1]], [0, 0], [[1, 0], [-1, 0], [0, 1], [0, -1], [0, 0], [0, 0]], [[0], [0], [0], [0], [1], [-1]])],
    '21b': [([[1, 2], [0, -1]], [['1/2'], [1]], [1, -1], [[1, 1], [-1, 0], [0, 0]], [[0], [1], [1]]),
            ([[0, 1], [-1, 3]], [[1], [0]], [0, 2], [[1, -1], [0, 1]], [[1], [-2]])],
    # nx = 1, nu = 2
    '12a': [([[3]], [[1, -2]], [1], [[1], [-1], [0], [0]], [[0, 0], [1, 0], [2, 1], [0, -1]])],
    # nx = 2, nu = 2
    '22a': [([[1, 2], [3, 1]], [[1, 0], [-1, 1]], [1, 2], [[1, 0], [0, -1], [0, 0]], [[1, 0], [0, 0], [1, -1]]),
            ([[0, 1], [2, 0]], [[0, 1], [1, 0]], [0, -1], [[-1, 1], [0, 0]], [[0, 1], [1, 1]])],
    '31a': [([[1, 1, 0], [0, 1, 1], [0, 0, '1/2']], [[0], [0], [1]], [1, 0, -1], [[1, 0, 0], [0, -1, 1], [0, 0, 0]], [[0], [1], [1]]),
            ([[0, 1, 0], [-1, 0, 2], [1, 0, 1]], [[1], [0], [2]], [0, 2, 0], [[1, -1, 2], [0, 0, 1]], [[1], [-2]])],
    '13a': [([[2]], [[1, 0, -1]], [1], [[1], [-1], [0], [0]], [[0, 1, 0], [0, 0, 1], [1, 1, 1], [-1, 0, 0]]),
            ([[-1]], [[0, 2, 1]], [0], [[1], [0]], [[1, 0, 0], [0, -1, 2]])],
    '51a': [([[(1 if j in (i, i + 1) else 0) for j in range(5)] for i in range(5)], [[0], [0], [0], [0], [1]], [0] * 5,
             [[(s if i == j else 0) for j in range(5)] for i in range(5) for s in (1, -1)] + [[0] * 5] * 2, [[0]] * 10 + [[1], [-1]])],
    '1x6': [([[k - 2]], [[1 + k % 2]], [k], [[1], [-1], [0]], [[0], [k - 3], [1]]) for k in range(6)],
    # three modes
    '11c': [([[1]], [[1]], [0], [[1], [-1], [0]], [[0], [0], [1]]), ([[2]], [[-1]], [1], [[1], [-1]], [[1], [0]]), ([[-1]], [[1]], [3], [[1], [0]], [[0], [-1]])],
}
_W5 = [[(4 if i == j else 1 if abs(i - j) == 1 else 0) for j in range(5)] for i in range(5)]
WEIGHT = {1: [[2]], 2: [[2, 1], [1, 3]], 3: [[2, 1, 0], [1, 3, 0], [0, 0, 1]], 5: _W5}
WEIGHT2 = {1: [[5]], 2: [[4, -1], [-1, 2]], 3: [[3, 0, 1], [0, 1, 0], [1, 0, 2]], 5: _W5}
WEIGHT3 = {1: [[3]], 2: [[6, 2], [2, 1]], 3: [[2, 1, 0], [1, 3, 0], [0, 0, 1]], 5: _W5}
TERM = {1: [[1], [-2]], 2: [[1, 0], [-1, 1], [0, -1]], 3: [[1, 0, 1], [-1, 1, 0], [0, 0, -1]], 5: [[1, 0, 0, 0, 2], [0, -1, 1, 0, 0]]}


def num(c, x):
    from fractions import Fraction
    if isinstance(x, (list, tuple)):
        return [num(c, y) for y in x]
    v = Fraction(x)
    return v if c.symbolic else float(v)


def const(c, x):
    return c.arr(num(c, x))


def system(c, name, offset='sym', rhs='sym', tag=''):
    """[(A, B, o, F, h)] with F acting on (x, u)."""
    out = []
    for i, (A, B, o, F, G) in enumerate(SYS[name]):
        A, B, F, G = const(c, A), const(c, B), const(c, F), const(c, G)
        o = c.vec('c%d' % i, A.shape[0]) if offset == 'sym' else (const(c, o) if offset == 'const' else const(c, [0] * len(o)))
        FG = c.np.hstack((F, G))
        if rhs == 'sym':
            h = c.vec('h%d' % i, FG.shape[0])
        elif callable(rhs):
            h = rhs(i, FG.shape[0])
        else:
            h = const(c, rhs[i])
        out.append((A, B, o, FG, h))
    return out


def roll(data, seq, x0, us):
    xs = [x0]
    for m, u in zip(seq, us):
        A, B, o = data[m][:3]
        xs.append(A.dot(xs[-1]) + B.dot(u) + o)
    return xs


def cost(c, Q, R, Pn, xs, us):
    v = 0
    for x, u in zip(xs[:-1], us):
        v = v + x.dot(Q).dot(x) + u.dot(R).dot(u)
    v = v + xs[-1].dot(Pn).dot(xs[-1])
    return v / 2


def join(c, x, u):
    return c.arr(list(x) + list(u))


def admissible(c, data, seq, xs, us, FN, hN, relax=0):
    cs = []
    for m, x, u in zip(seq, xs, us):
        cs.append(c.le(data[m][3].dot(join(c, x, u)), data[m][4] + relax))
    cs.append(c.le(FN.dot(xs[-1]), hN + relax))
    return c.and_(*cs)


def pwa(c, data):
    S = [c.dts.AffineSystem(A.copy(), B.copy(), o.copy()) for A, B, o, F, h in data]
    D = [c.geom.Polyhedron(F.copy(), h.copy()) for A, B, o, F, h in data]
    return c.dts.PieceWiseAffineSystem(S, D)
