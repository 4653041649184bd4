"""Exact linear algebra over Sym (lists of lists), used by the numpy/scipy stand-ins."""
from fractions import Fraction
from . import sym as S
from .sym import Sym, ZERO, ONE, Unsupported, cmp0, and_, or_


class LinAlgSingular(Exception):
    pass


def const(M):
    return all(x.is_const for r in M for x in r)


def frac_rank(rows):
    """rank of a matrix of Fractions."""
    M, k = [list(r) for r in rows], 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(k, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[k], M[p] = M[p], M[k]
        for i in range(k + 1, len(M)):
            if M[i][c]:
                q = M[i][c] / M[k][c]
                M[i] = [a - q * b for a, b in zip(M[i], M[k])]
        k += 1
    return k


def mul(A, B):
    n = len(B)
    m = len(B[0]) if n else 0
    out = []
    for r in A:
        row = []
        for j in range(m):
            acc = ZERO
            for k in range(n):
                if r[k].num and B[k][j].num:
                    acc = acc + r[k] * B[k][j]
            row.append(acc)
        out.append(row)
    return out


def tr(A, ncols=None):
    if not A:
        return [[] for _ in range(ncols or 0)]
    return [list(c) for c in zip(*A)]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def det(M):
    n = len(M)
    if n == 0:
        return ONE
    if n == 1:
        return M[0][0]
    if const(M):
        return Sym.of(_det_frac([[Fraction(x.const) for x in r] for r in M]))
    if n <= 5:
        memo = {}

        def d(row, cols):
            if row == n:
                return ONE
            k = (row, cols)
            if k in memo:
                return memo[k]
            acc = ZERO
            for i, c in enumerate(cols):
                x = M[row][c]
                if not x.num:
                    continue
                t = x * d(row + 1, cols[:i] + cols[i + 1:])
                acc = acc + t if i % 2 == 0 else acc - t
            memo[k] = acc
            return acc
        return d(0, tuple(range(n)))
    raise Unsupported('symbolic determinant of size %d' % n)


def _det_frac(M):
    M = [r[:] for r in M]
    n = len(M)
    d = Fraction(1)
    for i in range(n):
        p = next((r for r in range(i, n) if M[r][i] != 0), None)
        if p is None:
            return Fraction(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            if f:
                M[r] = [a - f * b for a, b in zip(M[r], M[i])]
    return d


def inv(M):
    n = len(M)
    if n == 0:
        return []
    if const(M):
        A = [[Fraction(x.const) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
        for i in range(n):
            p = next((r for r in range(i, n) if A[r][i] != 0), None)
            if p is None:
                raise LinAlgSingular()
            A[i], A[p] = A[p], A[i]
            k = A[i][i]
            A[i] = [x / k for x in A[i]]
            for r in range(n):
                if r != i and A[r][i]:
                    f = A[r][i]
                    A[r] = [a - f * b for a, b in zip(A[r], A[i])]
        return [[Sym.of(x) for x in r[n:]] for r in A]
    # block structure first: exact and cheap for block triangular / diagonal matrices
    if n > 4:
        raise Unsupported('symbolic inverse of size %d' % n)
    d = det(M)
    if bool(cmp0(Sym(d.num), 'eq')) if not d.is_const else d.const == 0:
        raise LinAlgSingular()
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            mn = [[M[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
            c = det(mn)
            if (i + j) % 2:
                c = -c
            out[j][i] = c / d
    return out


def rref(M):
    """reduced row echelon form with forks on pivots; returns (R, pivot columns)."""
    A = [list(r) for r in M]
    if not A:
        return A, []
    m, n = len(A), len(A[0])
    piv = []
    r = 0
    for c in range(n):
        p = None
        # constants first: no fork needed
        for i in range(r, m):
            if A[i][c].is_const and A[i][c].const != 0:
                p = i
                break
        if p is None:
            for i in range(r, m):
                if not A[i][c].is_const and bool(A[i][c] != 0):
                    p = i
                    break
        if p is None:
            for i in range(r, m):
                A[i][c] = ZERO
            continue
        A[r], A[p] = A[p], A[r]
        k = A[r][c]
        A[r] = [x / k if x.num else x for x in A[r]]
        A[r][c] = ONE
        for i in range(m):
            if i != r and A[i][c].num:
                f = A[i][c]
                A[i] = [a - f * b if b.num else a for a, b in zip(A[i], A[r])]
        piv.append(c)
        r += 1
        if r == m:
            break
    return A, piv


def rank(M):
    return len(rref(M)[1])


def norm2(v):
    acc = ZERO
    for x in v:
        if x.num:
            acc = acc + x * x
    return S.E.sym_sqrt(acc, True)


def dotv(a, b):
    acc = ZERO
    for x, y in zip(a, b):
        if x.num and y.num:
            acc = acc + x * y
    return acc


def householder_q(cols, n):
    """orthogonal Q (list of rows) and R diag such that the first columns of Q span `cols`
    (independent) in order, and the others are an orthonormal basis of the complement."""
    Q = eye(n)
    diag = []
    for k, c in enumerate(cols):
        # coordinates in the current frame
        w = [dotv([Q[i][j] for i in range(n)], c) for j in range(n)]
        t = w[k:]
        nt = norm2(t)
        if nt.is_const and nt.const == 0:
            raise Unsupported('dependent columns')
        diag.append(nt)
        u = [x for x in t]
        # reflect t onto +/- nt e1; a sign choice that avoids a zero reflector
        if all(not x.num for x in u[1:]):
            continue
        if u[0].is_const and all(x.is_const for x in u[1:]) or not u[0].num:
            u[0] = u[0] - nt
        elif bool(u[0] >= 0):
            u[0] = u[0] + nt
        else:
            u[0] = u[0] - nt
        uu = dotv(u, u)
        # Q[:,k:] <- Q[:,k:] (I - 2 u u' / u'u)
        for i in range(n):
            s = dotv(Q[i][k:], u)
            if not s.num:
                continue
            f = s * 2 / uu
            for j in range(len(u)):
                if u[j].num:
                    Q[i][k + j] = Q[i][k + j] - f * u[j]
    return Q, diag


def row_basis(M):
    """indices of a maximal independent set of rows (greedy, forks when symbolic)."""
    keep = []
    for i in range(len(M)):
        if rank([M[j] for j in keep] + [M[i]]) > len(keep):
            keep.append(i)
    return keep


def orth_frame(M, n):
    """(Vt rows: orthonormal basis of row space then of nullspace, rank)."""
    idx = row_basis(M)
    if S.E.opt.get('approx') and const(M):
        return gram_schmidt([M[i] for i in idx], n), len(idx)
    Q, _ = householder_q([M[i] for i in idx], n)
    return [[Q[i][j] for i in range(n)] for j in range(n)], len(idx)


def gram_schmidt(rows, n):
    """exactly orthogonal rational frame that extends `rows`; norms are 1 up to the precision of sqrt."""
    out = []
    for v in [[Fraction(x.const) for x in r] for r in rows] + [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]:
        for q in out:
            k = sum(a * b for a, b in zip(v, q)) / sum(a * a for a in q)
            v = [a - k * b for a, b in zip(v, q)]
        if any(v):
            out.append(v)
    res = []
    for v in out:
        k = Fraction(S.E.sym_sqrt(Sym.of(sum(a * a for a in v))).const)
        res.append([Sym.of(a / k) for a in v])
    return res


def pinv(M, m, n):
    """Moore-Penrose inverse of an m x n matrix."""
    if m == 0 or n == 0:
        return [[ZERO] * m for _ in range(n)]
    R, piv = rref(M)
    r = len(piv)
    if r == 0:
        return [[ZERO] * m for _ in range(n)]
    # full rank factorisation M = F G
    F = [[row[c] for c in piv] for row in M]
    G = R[:r]
    Ft = tr(F)
    Gt = tr(G)
    A = inv(mul(Ft, F))
    Bm = inv(mul(G, Gt))
    return mul(mul(Gt, Bm), mul(A, Ft))
