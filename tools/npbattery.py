#!/opt/venv/bin/python
"""Compares the symbolic numpy/scipy stand-ins with the real libraries, expression by expression, on exact constant arrays
and on arrays holding one pinned symbolic variable. A maintenance tool: the registered checks do not use it."""
import os
import sys
import types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import numpy as rnp
from vp import loader, sym as S, symnp as N
from vp.engine import Engine

EXPRS = '''
np.block([[M, v[:, None]], [np.zeros((1, 2)), np.ones((1, 1))]])
np.block([M, M])
np.kron(np.eye(2), M)
np.kron(M, v)
np.kron(M, np.eye(2))
np.tile(v, 3)
np.tile(M, (2, 1))
np.repeat(M, 2, axis=0)
np.repeat(v, 2)
np.append(v, w)
np.append(M, v[None, :], axis=0)
np.pad(M, ((0, 2), (0, 0)))
np.pad(M, ((0, 2), (0, 1)), mode='constant')
np.pad(M, ((0, 2), (0, 0)), 'constant', constant_values=0)
np.split(w, 2)
np.split(w, [1, 3])
np.array_split(w, 3)
np.hsplit(M, 2)
np.vsplit(M, 2)
np.roll(w, 1)
np.flip(w)
np.flipud(M)
np.fliplr(M)
np.rot90(M)
np.transpose(M)
np.swapaxes(M, 0, 1)
np.squeeze(M[:1])
np.expand_dims(v, 0)
np.atleast_1d(v[0])
np.atleast_2d(v)
np.ravel(M)
np.triu(M)
np.tril(M)
np.diagonal(M)
np.diag(v)
np.diag(M)
np.diagflat(v)
np.cumsum(w)
np.cumprod(w)
np.diff(w)
np.cross(np.append(v, 1.), np.append(v, 2.))
np.inner(v, v)
np.outer(v, w)
np.vdot(v, v)
np.trace(M)
np.einsum('ij,j->i', M, v)
np.einsum('ij,ij->i', M, M)
np.tensordot(M, v, 1)
np.linalg.multi_dot([M, M, v])
np.linalg.matrix_power(M, 3)
np.linalg.inv(M)
np.linalg.solve(M, v)
np.linalg.solve(M, M)
np.linalg.det(M)
np.linalg.matrix_rank(M)
np.linalg.norm(v)
np.linalg.norm(v, 2)
np.linalg.norm(v, 1)
np.linalg.norm(v, np.inf)
np.linalg.norm(M)
np.linalg.norm(M, 'fro')
np.linalg.norm(M, axis=1)
np.linalg.norm(M, axis=1, keepdims=True)
np.linalg.norm(M, ord=2, axis=1)
np.linalg.cholesky(M @ M.T)
np.linalg.lstsq(M, v, rcond=None)[0]
np.linalg.pinv(M)
np.maximum(v, 0.)
np.maximum(v, v[::-1])
np.minimum(v, .5)
np.fmax(v, 0.)
np.maximum.reduce(v)
np.clip(w, -.5, .5)
w.clip(0., 1.)
np.abs(w)
np.absolute(w)
np.fabs(w)
abs(w)
np.sign(w)
np.sqrt(np.abs(w))
np.square(w)
np.power(w, 2)
w**2
np.float_power(w, 2)
np.negative(w)
np.add(v, v)
np.subtract(v, v)
np.multiply(v, v)
np.divide(v, np.array([2., 3.]))
np.true_divide(v, 2.)
np.reciprocal(np.array([2., 4.]))
np.hypot(v[0], v[1])
np.isnan(w)
np.isfinite(w)
np.isinf(w)
np.isclose(v, v + 1.e-12)
np.allclose(v, v + 1.e-12)
np.array_equal(v, v)
np.logical_and(w > 0., w < 1.)
np.logical_or(w > 0., w < -1.)
np.logical_not(w > 0.)
(w > 0.) & (w < 1.)
(w > 0.) | (w < -1.)
~(w > 0.)
np.where(w > 0., w, 0.)
np.where(w > 0.)[0]
np.nonzero(w > 0.)[0]
np.flatnonzero(w > 0.)
np.argwhere(w > 0.)
np.count_nonzero(w > 0.)
np.sum(w > 0.)
(w > 0.).sum()
(w > 0.).all()
(w > 0.).any()
(w > 0.).nonzero()[0]
(w > 0.).tolist()
np.all(w > 0.)
np.any(w > 0.)
np.greater(w, 0.)
np.less_equal(w, 0.)
np.not_equal(w, 0.)
np.equal(w, 0.)
w[w > 0.]
M[v > 0.]
np.max(w)
w.max()
w.min()
M.max(axis=0)
M.min(axis=1)
np.ptp(w)
np.argmax(w)
np.argmin(w)
w.argmax()
np.argsort(w)
np.sort(w)
np.sum(M, axis=0)
M.sum(axis=1)
M.sum()
np.mean(w)
w.mean()
M.mean(axis=0)
np.average(w)
np.prod(w)
w.prod()
np.dot(M, v)
M.dot(v)
M @ v
v @ M @ v
np.matmul(M, M)
M.T @ M
np.zeros_like(w)
np.ones_like(w)
np.full(3, v[0])
np.full_like(w, 2.)
np.empty((0, 2))
np.stack([v, v])
np.stack([v, v], axis=1)
np.vstack([v, v])
np.hstack([v, w])
np.column_stack((M, v))
np.dstack((M, M)).shape
np.concatenate([M, M], axis=1)
np.concatenate((v, [1.]))
np.r_[v, w]
np.c_[M, v]
np.r_[M, M]
np.delete(M, 0, 0)
np.delete(w, [0, 1])
np.insert(v, 0, 1.)
np.take(w, [0, 2])
w.take([0, 2])
np.compress([True, False], v)
np.extract(w > 0., w)
np.select([w > 0.], [w], 0.)
np.choose([0, 1], [v, v])
np.unique(np.array([1., 1., 2.]))
np.linspace(0., 1., 3)
np.arange(3)
np.eye(2)[[1, 0]]
np.identity(2)
np.array([x for x in v])
np.array(list(map(float, v)))
np.asarray(v, dtype=float)
np.asarray(M, dtype=np.float64)
np.array(M, copy=True)
M.copy()
M.flatten()
M.ravel()
M.reshape(4)
M.reshape(-1, 1)
M.reshape((1, -1))
M.tolist()
w.tolist()
M.astype(float)
M.astype(np.float64)
M.size, M.shape, M.ndim
len(M)
M.T
M[:, None].shape
M[np.newaxis].shape
M[np.ix_([0, 1], [1])]
M[[0], :]
M[:, [1]]
M[-1]
M[::-1]
np.fromiter((x for x in [1., 2.]), dtype=float)
np.vectorize(lambda x: 2.*x)(w)
np.apply_along_axis(lambda r: r.sum(), 1, M)
np.apply_along_axis(np.linalg.norm, 1, M)
np.ndindex(M.shape).__class__.__name__
[i for i in np.ndindex(*M.shape)]
[x for _, x in np.ndenumerate(M)]
np.meshgrid([0, 1], [0, 1])[0]
np.isscalar(v[0])
np.size(M), np.shape(M), np.ndim(M)
np.size(M, 0)
np.round(w, 2)
np.around(w)
np.rint(w)
np.floor(w)
np.ceil(w)
np.trunc(w)
np.copy(M)
np.iscomplexobj(M)
np.nan_to_num(w)
np.polyfit
np.linalg.svd(M)[1]
np.linalg.svd(M, compute_uv=False)
np.linalg.eigvals(T)
np.linalg.eig(T)[0]
np.linalg.eigh(Q)[0]
np.linalg.eigvalsh(Q)
np.max(np.abs(np.linalg.eigvals(T)))
np.trace(M @ M)
np.logical_and.reduce([w > 0., w < 1.])
np.add.reduce(w)
np.add.reduce([v, v])
np.multiply.outer(v, v)
np.sum([v, v], axis=0)
np.sum(v*v)
sum(v)
sum(M)
max(w)
min(w)
sorted(w)
max(w, key=lambda x: -x)
any(x > 1. for x in w)
all(x > -5. for x in w)
abs(v[0])
round(v[0], 2)
float(v[0])
bool(w[0] > 0.)
int(np.sum(w > 0.))
v[0] ** 2
v[0] ** .5 if v[0] >= 0 else 0.
np.float64(v[0])
np.bool_(w[0] > 0)
math.sqrt(v[0]*v[0])
math.fabs(v[0])
math.isclose(v[0], v[0])
math.hypot(v[0], v[1])
math.fsum(w)
functools.reduce(np.dot, [M, M, M])
functools.reduce(np.matmul, [M, M, M])
functools.reduce(lambda a, b: a @ b, [M, M])
list(itertools.chain(v, w))
[a for a in zip(v, w)]
dict(enumerate(v))
set(np.where(w > 0.)[0])
np.union1d([1, 2], [2, 3])
np.setdiff1d(np.arange(4), [1, 2])
np.intersect1d([1, 2], [2, 3])
np.in1d([1, 2], [2])
np.isin([1, 2], [2])
np.searchsorted([1, 2, 3], 2)
np.lexsort
np.array([v, v])
np.array([[1., 2.], v])
np.array([v[0], 1.])
np.array([[v[0]], [v[1]]])
np.array([M, M]).shape
np.finfo(float).eps
np.float64
np.shares_memory(M, M)
np.may_share_memory(M, M.copy())
np.errstate(divide='ignore').__class__.__name__
np.broadcast_to(v, (2, 2))
np.ascontiguousarray(M)
np.asfortranarray(M)
np.require(M)
np.require(M, dtype=float)
np.copyto
np.put_along_axis
np.take_along_axis(M, np.array([[0], [1]]), axis=1)
np.moveaxis(M, 0, 1)
np.dot(v, v)
v.dot(v)
np.array(v, ndmin=2)
np.array([w > 0.])
np.logical_xor(w > 0., w > 1.)
np.heaviside(w, 0.)
np.trapz
np.convolve(v, v)
np.interp
np.vander
np.tri(2)
np.triu_indices(2)
np.tril_indices(2)
np.diag_indices(2)
np.fill_diagonal
block_diag(M, M)
block_diag(v, M)
block_diag(*[M]*3)
block_diag(M, np.zeros((2, 0)))
sl.solve(M, v)
sl.inv(M)
sl.cho_solve(sl.cho_factor(M @ M.T), v)
sl.cho_solve((np.linalg.cholesky(M @ M.T), True), v)
sl.solve_triangular(np.array([[2., 0.], [1., 3.]]), v, lower=True)
sl.solve_triangular(np.array([[2., 0.], [1., 3.]]), M, lower=True)
sl.solve_triangular(np.array([[2., 0.], [1., 3.]]), v, lower=True, trans='T')
sl.solve_triangular(np.array([[2., 5.], [1., 3.]]), v)
sl.cho_solve((np.array([[2., 0.], [1., 3.]]), True), v)
sl.cho_solve((np.array([[2., 1.], [0., 3.]]), False), M)
sl.cho_solve(sl.cho_factor(np.array([[4., 2.], [2., 10.]])), v)
sl.norm(v)
sl.expm(np.zeros((2, 2)))
sl.expm(np.array([[0., 1.], [0., 0.]]))
sl.cholesky(M @ M.T, lower=True)
sl.det(M)
sl.svdvals(Q)
sl.eigvals(T)
sl.lstsq(M, v)[0]
sl.pinv(M)
sl.qr(M)[1].shape
np.linalg.qr(M)[1].shape
np.abs(np.diag(np.linalg.qr(M.T)[1]))
sl.null_space(np.array([[1., 0.]])).shape
sl.toeplitz
'''

STMTS = '''
A = M.copy(); A[0] = 0.; A
A = M.copy(); A[0, :] /= 2.; A
A = M.copy(); A[:, 0] *= -1; A
A = M.copy(); A -= 1.; A
A = M.copy(); A += v; A
A = M.copy(); A @= M; A
A = np.zeros((2, 2)); A[0] = v; A
A = np.empty((2, 2)); A[:, 0] = v; A[:, 1] = 0; A
A = np.zeros(4); A[[0, 2]] = v; A
A = np.zeros(4); A[1:3] += v; A
A = np.zeros(4); A[w > 0.] = 1.; A
A = np.zeros(4); np.add.at(A, [0, 2], v); A
A = np.zeros(4); np.put(A, [0, 2], [1., 2.]); A
A = np.zeros(4); A.put([0], v[0]); A
A = np.zeros(4); A.fill(2.); A
A = np.zeros((2, 2)); np.fill_diagonal(A, v); A
A = np.zeros((2, 2)); A.flat[:] = w; A
A = np.zeros(2); np.copyto(A, v); A
A = M.copy(); A.T[0] = v; A
A = w.copy(); A.sort(); A
A = w.copy(); A[::2] = 0.; A
A = M.copy(); A[[0, 1]] = A[[1, 0]]; A
A = np.zeros(2); np.dot(M, v, out=A); A
A = np.zeros(2); np.multiply(v, 2., out=A); A
A = np.ones(4, dtype=bool); A[[0, 1]] = False; np.flatnonzero(A)
A = np.ones(4, dtype=bool); A[[0, 1]] = False; w[A]
A = np.array([0, 1, 2, 3]); A[A != 2]
A = list(w); A.sort(); A
A = list(M); np.array(A)
A = np.nditer; 0
A = iter(M); next(A)
A, B = M; A + B
(A, B), (C, D) = M; A*D - B*C
A = np.errstate(all='ignore'); A.__enter__(); A.__exit__(); v
A = M.view(); A.shape
A = M.item(0, 1); A
A = v.item(0); A
A = np.array(v[0]); A + 1.
A = np.array(v[0]); A.item()
A = sum(a*b for a, b in zip(v, v)); A
A = f'{v[0]}'; 0
A = '%.3f' % 1.5; A
A = str(v); 0
A = repr(M); 0
A = M.nbytes; 0
A = M.dtype; 0
A = M.dtype == float; A
A = M.dtype.kind; A
A = isinstance(M, np.ndarray); A
A = np.issubdtype(M.dtype, np.floating); A
A = hash(tuple(np.arange(2))); 0
A = {tuple(r) for r in np.eye(2)}; len(A)
A = np.array2string(np.eye(2)); 0
A = M.squeeze(); A
A = M.swapaxes(0, 1); A
A = M.transpose(); A
A = M.diagonal(); A
A = M.trace(); A
A = M.cumsum(); A
A = M.repeat(2, axis=0); A
A = w.argsort()[::-1]; A
A = w.round(2); A
A = M.nonzero(); len(A[0])
A = w.ptp(); A
A = np.vstack(list(M)); A
A = np.vstack([r for r in M if r[0] > 0.]); A
A = np.hstack((np.zeros((2, 0)), M)); A
A = np.vstack((np.zeros((0, 2)), M)); A
A = np.zeros((0, 2)).dot(v); A
A = np.zeros((2, 0)).dot(np.zeros(0)); A
A = np.all(np.zeros((0, 2)).dot(v) <= 0.); A
A = np.max(np.append(np.zeros((0, 2)).dot(v), -1.)); A
A = max((x for x in w), default=0.); A
A = np.max(w, initial=0.); A
A = np.max(np.zeros(0), initial=-1.); A
A = np.sum(np.zeros((0, 2)), axis=0); A
A = np.linalg.norm(v - v[::-1]) <= 1.e-7; A
A = not (w > 5.).any(); A
A = np.less(M.dot(v), 1.).all(); A
A = v.tolist() + w.tolist(); A
A = np.fromiter(v, float); A
A = np.array([*v, *w]); A
A = np.array([float(x) for x in v]); A
A = v.sum() / v.size; A
A = [*map(lambda a: a @ v, M)]; A
A = list(filter(lambda x: x > 0, w)); A
A = np.linalg.LinAlgError; 0
A = np.atleast_2d(M[0]).T; A
A = v[:, np.newaxis] * M; A
A = v.reshape(2, 1) @ v.reshape(1, 2); A
A = np.squeeze(v.reshape(2, 1)); A
A = divmod(7, 2); A
A = -M; A
A = +M; A
A = 1. - M; A
A = 2 / np.array([1., 2.]); A
A = M / v[:, None]; A
A = M * v; A
A = (M.T * v).T; A
A = M // 1.; A
A = M % 1.; A
'''


def run(np_, sl, math_, bd, mk, code, stmt):
    import functools
    import itertools
    ns = {'np': np_, 'sl': sl, 'math': math_, 'block_diag': bd, 'functools': functools, 'itertools': itertools}
    ns.update(mk)
    if stmt:
        body, last = code.rsplit(';', 1)
        exec(body.strip(), ns)
        return eval(last.strip(), ns)
    return eval(code, ns)


def flat(x):
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    if isinstance(x, dict):
        return flat(sorted(x.items()))
    if isinstance(x, set):
        return flat(sorted(x))
    if isinstance(x, rnp.ndarray):
        return [('shape', x.shape)] + flat(list(x.view(rnp.ndarray).ravel()))
    return [x]


def main():
    import scipy.linalg as rsl
    import math as rmath
    from scipy.linalg import block_diag as rbd
    w = loader.world()
    sh = w.shims
    data = {'M': rnp.array([[2., 1.], [.5, 3.]]), 'v': rnp.array([.5, -1.25]), 'w': rnp.array([.75, -2., 1.5, .25]),
            'T': rnp.array([[.5, 1.], [0., -2.]]), 'Q': rnp.array([[2., 0.], [0., 3.]])}
    bad = 0
    items = [(c, False) for c in EXPRS.strip().splitlines()] + [(c, True) for c in STMTS.strip().splitlines()]
    only = sys.argv[1:]
    for code, stmt in items:
        if only and not any(o in code for o in only):
            continue
        try:
            want = run(rnp, rsl, rmath, rbd, {k: a.copy() for k, a in data.items()}, code, stmt)
        except Exception as e:
            print('REAL FAILS', code, type(e).__name__, e)
            continue
        got, errs = [], []
        want = bool(want) if isinstance(want, rnp.bool_) else want

        def body(E):
            mk = {k: N.lift(a.copy()) for k, a in data.items()}
            try:
                got.append(run(sh['numpy'], sh['scipy.linalg'], sh['math'], sh['scipy.linalg'].block_diag, mk, code, stmt))
            except RecursionError as e:
                errs.append('RecursionError')
            except Exception as e:
                errs.append('%s: %s' % (type(e).__name__, str(e)[:150]))
        E = Engine(max_paths=50)
        E.opt = {}
        try:
            E.explore(lambda *a: body(E))
        except Exception as e:
            errs.append('explore %s: %s' % (type(e).__name__, str(e)[:150]))
        if errs or not got:
            bad += 1
            print('FAIL', code, '->', errs[:2])
            continue
        if callable(want) or isinstance(want, type):
            continue
        a, b = flat(want), flat(got[0])
        ok = len(a) == len(b)
        if ok:
            for x, y in zip(a, b):
                if isinstance(y, S.Sym) and not N.is_const(y):
                    continue
                try:
                    y = bool(y) if isinstance(y, S.B) else y
                    if isinstance(x, (bool, rnp.bool_)) or isinstance(y, (bool, rnp.bool_)):
                        ok &= bool(x) == bool(y)
                    elif isinstance(x, (tuple, str)) or x is None:
                        ok &= x == y
                    else:
                        ok &= abs(complex(x) - complex(float(y) if isinstance(y, S.Sym) else y)) < 1e-9
                except Exception as e:
                    ok = False
        if not ok:
            bad += 1
            print('DIFF', code, '->', repr(want)[:120].replace('\n', ''), 'vs', repr(got[0])[:160].replace('\n', ''))
    print('%d expressions, %d problems' % (len(items), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
