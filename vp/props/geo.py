"""Helpers shared by the geometry harnesses: the set a polyhedron describes, as a predicate."""

TOL = 1e-6


def member(c, P, z, relax=0):
    """z in {A x <= b, C x = d}, read from the public attributes."""
    xs = []
    if P.A.shape[0]:
        xs.append(c.le(P.A.dot(z), P.b + relax))
    if P.C.shape[0]:
        if relax:
            xs += [c.le(P.C.dot(z), P.d + relax), c.ge(P.C.dot(z), P.d - relax)]
        else:
            xs.append(c.eq(P.C.dot(z), P.d))
    return c.and_(*xs)


def in_set(c, A, b, C, d, z, relax=0):
    xs = []
    if A is not None and A.shape[0]:
        xs.append(c.le(A.dot(z), b + relax))
    if C is not None and C.shape[0]:
        if relax:
            xs += [c.le(C.dot(z), d + relax), c.ge(C.dot(z), d - relax)]
        else:
            xs.append(c.eq(C.dot(z), d))
    return c.and_(*xs)


def poly(c, A, b, C=None, d=None):
    return c.geom.Polyhedron(A.copy(), b.copy(), None if C is None else C.copy(), None if d is None else d.copy())


def data(c, n, m, k, tag=''):
    A, b = c.mat('A' + tag, m, n), c.vec('b' + tag, m)
    C, d = (c.mat('C' + tag, k, n), c.vec('d' + tag, k)) if k else (None, None)
    return A, b, C, d


def unchanged(c, P, A, b, C, d, label):
    ok = [c.eq(P.A, A), c.eq(P.b, b)]
    if C is None:
        ok.append(P.C.shape[0] == 0)
    else:
        ok += [c.eq(P.C, C), c.eq(P.d, d)]
    c.check(c.and_(*ok), label)
