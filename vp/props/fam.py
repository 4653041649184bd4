"""Families of constant constraint matrices (rows with rational norms), used with free right-hand sides."""
from fractions import Fraction

# inequalities
A1 = {'seg': [[1], [-1]], 'ray': [[-2]], 'seg3': [[2], [-1], [3]], 'zero': [[0], [1], [-3]], 'dup': [[1], [-1], [1], [-2]]}
A2 = {
    'box': [[1, 0], [-1, 0], [0, 1], [0, -1]],
    'tri': [[3, 4], [-1, 0], [0, -2]],
    'cone': [[-4, 3], [0, -1]],
    'half': [[5, -12]],
    'strip': [[3, 4], [-6, -8]],
    'wedge': [[-1, 0], [4, -3], [-8, 15]],
    'quad': [[3, 4], [-4, 3], [-3, -4], [5, -12]],
    'pent': [[1, 0], [-1, 0], [0, 1], [0, -1], [3, 4]],
    'dup': [[1, 0], [2, 0], [-1, 0], [0, 1], [0, -1]],
    'zero': [[0, 0], [1, 0], [-3, 4], [0, -1]],
}
A3 = {
    'box': [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    'tet': [[-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 2, 2]],
    'cone': [[2, -1, 2], [-1, 0, 0], [0, 3, -4]],
    'slab': [[1, 2, 2], [-2, -4, -4]],
}
A2['gon'] = [[3, 4], [-4, 3], [-3, -4], [4, -3], [3, -4], [4, 3], [-3, 4], [-4, -3], [1, 0], [0, 1], [-1, 0], [0, -1]]
A2['many'] = [[3, 4], [-1, 0], [6, 8], [0, -1], [5, 12], [-4, 3], [1, 0], [3, 4], [0, 1], [-8, -15], [0, -3], [2, 0], [8, 6], [-12, 5], [0, 2]]
A3['oct'] = [[s * a, t * b, u * g] for s in (1, -1) for t in (1, -1) for u in (1, -1) for a, b, g in [(1, 2, 2)]]
A3['cut'] = A3['box'] + [[1, 2, 2], [-2, 1, 2], [0, 3, -4]]
A4 = {
    'box': [[(s if i == j else 0) for j in range(4)] for i in range(4) for s in (1, -1)],
    'cut': [[(s if i == j else 0) for j in range(4)] for i in range(4) for s in (1, -1)] + [[1, 1, 1, 1], [-1, 1, -1, 1]],
    'simplex': [[-1, 0, 0, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, -1], [1, 1, 1, 1]],
    'prism': [[1, 0, 0, 0], [-1, 0, 0, 0], [0, 3, 4, 0], [0, -1, 0, 0], [0, 0, -1, 0], [0, 0, 0, 2]],
}
A5 = {
    'simplex': [[(-1 if i == j else 0) for j in range(5)] for i in range(5)] + [[2, 1, 1, 1, 3]],
    'box': [[(s if i == j else 0) for j in range(5)] for i in range(5) for s in (1, -1)],
}
for _t in (A1, A2, A3, A4, A5):
    _t['none'] = []            # no inequality at all
A = {1: A1, 2: A2, 3: A3, 4: A4, 5: A5}
# constant right-hand sides, used where a configuration leaves only some of them free ('free': row numbers)
BASE = {
    (1, 'seg'): [2, 3], (1, 'seg3'): [5, 2, 9], (1, 'dup'): [2, 1, 2, 3],
    (2, 'box'): [2, 1, 3, 1], (2, 'tri'): [12, 0, 1], (2, 'pent'): [2, 1, 2, 1, 5], (2, 'dup'): [1, 3, 1, 1, 1], (2, 'quad'): [10, 5, 5, 20],
    (2, 'cone'): [6, 1], (2, 'strip'): [5, 10], (2, 'half'): [7],
    (2, 'gon'): [5, 5, 5, 5, 5, 5, 5, 5, 1, 1, 1, 1], (2, 'many'): [15, 0, 30, 1, 60, 20, 4, 15, 3, 40, 3, 9, 40, 50, 6],
    (3, 'box'): [1, 2, 1, 1, 3, 1], (3, 'tet'): [0, 1, 0, 8], (3, 'oct'): [3, 3, 3, 3, 3, 3, 3, 3], (3, 'cut'): [1, 2, 1, 1, 3, 1, 5, 4, 6], (3, 'slab'): [3, 6], (3, 'cone'): [4, 1, 5],
    (4, 'box'): [1, 1, 2, 1, 1, 3, 1, 1], (4, 'cut'): [1, 1, 2, 1, 1, 3, 1, 1, 4, 3], (4, 'simplex'): [0, 0, 1, 0, 3], (4, 'prism'): [1, 1, 12, 0, 0, 1],
    (5, 'simplex'): [0, 0, 0, 0, 0, 6], (5, 'box'): [1, 1, 1, 2, 1, 1, 3, 1, 1, 1],
}
# equalities
C = {
    2: {'a': [[3, 4]], 'b': [[0, 2]], 'c': [[-5, 12]]},
    3: {'a': [[1, 2, 2]], 'b': [[2, -1, 2]], 'c': [[0, 3, 4]], 'two': [[1, 0, 0], [0, 3, 4]]},
    4: {'a': [[0, 3, 0, 4]], 'two': [[1, 0, 0, 0], [0, 0, 3, 4]]},
    5: {'a': [[0, 3, 0, 0, 4]]},
}


def null(Cm):
    """rational nullspace test: does C r = 0 with A r <= 0 have a nonzero solution (decided by z3)."""


_memo = {}


def recession(Am, Cm=(), n=None):
    """z3 decides: is there a nonzero r with A r <= 0, C r = 0?"""
    key = (str(Am), str(Cm), n)
    if key not in _memo:
        from ..z3load import z3
        n = n or len((list(Am) + list(Cm))[0])
        r = [z3.Real('r%d' % i) for i in range(n)]
        s = z3.Solver()
        for row in Am:
            s.add(z3.Sum([a * x for a, x in zip(row, r)]) <= 0)
        for row in Cm:
            s.add(z3.Sum([a * x for a, x in zip(row, r)]) == 0)
        s.add(z3.Or([x != 0 for x in r]))
        _memo[key] = s.check() == z3.sat
    return _memo[key]


def combos(names, **kw):
    """[(n, a, c)] from 'n:a' or 'n:a:c' strings; '/0,3' at the end: only these right-hand sides are free; '@1000' after it: everything that many times larger."""
    out = []
    for t in names:
        t, _, scale = t.partition('@')
        t, _, free = t.partition('/')
        p = t.split(':')
        x = dict(n=int(p[0]), a=p[1], c=p[2] if len(p) > 2 else None)
        if free:
            x['free'] = [] if free == '-' else [int(v) for v in free.split(',')]
        if scale:
            x['scale'] = int(scale)
        x.update(kw)
        out.append(x)
    return out


def build(c, cfg, tag=''):
    n = cfg['n']
    Am = A[n][cfg['a']]
    Cm = C[n][cfg['c']] if cfg.get('c') else None
    mk = c.ints if cfg.get('int') else c.arr
    b, d = c.vec('b' + tag, len(Am)), None if Cm is None else c.vec('d' + tag, len(Cm))
    if 'free' in cfg:
        s = cfg.get('scale', 1)
        base = [v * s for v in BASE[n, cfg['a']]]
        for i in range(len(Am)):
            if i not in cfg['free']:
                b[i] = base[i]
            else:
                c.box(b[i], -50 * s, 50 * s)
        if cfg.get('int') and not cfg['free']:
            b = c.ints(base)
        if cfg.get('d0'):
            d = c.arr([0] * len(Cm))
    return (mk(Am) if Am else c.np.zeros((0, n)), b, None if Cm is None else mk(Cm), d)
