"""Engine self-test (not a property): NumPy/SciPy/Python idioms on symbolic values, each validated against the real libraries.
Run: python -m engine.run X99 --all"""
from engine.api import case

IDIOMS = '''
np.fromiter((x * 2 for x in a), dtype=float)
np.fromiter((x * 2 for x in a), float, 3)
np.array([x * 2 for x in a])
np.asarray(list(map(lambda x: x + 1, a)))
np.add.reduce(a)
np.multiply.reduce(a)
np.maximum.reduce(a)
np.minimum.reduce(M, axis=0)
np.add.accumulate(a)
np.cumsum(a)
np.cumprod(a)
np.add.outer(a, a)
np.subtract.outer(a, b)
np.multiply.outer(a, b)
np.take(a, [2, 0])
np.take(M, [1, 0], axis=0)
np.take_along_axis(M, np.array([[0], [1]]), axis=1)
np.compress([True, False, True], a)
np.extract(np.array([True, False, True]), a)
np.delete(a, 1)
np.delete(M, 0, axis=0)
np.insert(a, 1, 5.0)
np.append(a, b)
np.append(M, M, axis=0)
np.concatenate((a, b))
np.concatenate([M, M], axis=1)
np.hstack((a, b))
np.vstack((a, b))
np.stack((a, b), axis=1)
np.column_stack((a, b))
np.dstack((a, b))
np.r_[a, b]
np.c_[a, b]
np.tile(a, 2)
np.tile(a, (2, 1))
np.repeat(a, 2)
np.repeat(M, 2, axis=0)
np.roll(a, 1)
np.flip(a)
np.flipud(M)
np.fliplr(M)
a[::-1]
np.swapaxes(M, 0, 1)
np.moveaxis(M, 0, 1)
np.transpose(M)
M.T
np.expand_dims(a, 0)
a[None, :] - a[:, None]
np.squeeze(M[:1])
np.ravel(M)
M.flatten()
M.ravel()
np.reshape(M, (3, 2))
M.reshape(-1)
np.atleast_1d(a[0])
np.atleast_2d(a)
np.broadcast_to(a, (2, 3))
np.broadcast_arrays(a, M)[0]
np.full(3, a[0])
np.full((2, 2), 0.5)
np.full_like(a, 2.0)
np.zeros_like(a) + a
np.ones_like(a) * a
np.empty(3) * 0 + a
np.eye(3) * a
np.identity(3) @ a
np.diag(a)
np.diag(Q)
np.diagonal(Q)
np.trace(Q)
np.diagflat(a)
np.tril(Q)
np.triu(Q, 1)
Q[np.triu_indices(3, 1)]
Q[np.tril_indices(3)]
Q[np.diag_indices(3)]
Q[np.ix_([0, 2], [1, 2])]
np.where(a > 0, a, -a)
np.where(a > b)[0].shape[0] * 1.0
np.select([a > 1, a > 0], [a, b], default=0.0)
np.choose([0, 1, 0], [a, b])
np.piecewise(a, [a < 0, a >= 0], [lambda x: -x, lambda x: x])
np.clip(a, 0, 1)
a.clip(0, 1)
np.maximum(a, 0)
np.fmax(a, b)
np.fmin(a, b)
np.abs(a)
np.absolute(a)
np.fabs(a)
abs(a)
np.sign(a)
np.square(a)
np.power(a, 2)
a ** 2
np.float_power(a, 2)
np.sqrt(np.abs(a) + 1)
np.reciprocal(a + 10)
np.negative(a)
np.positive(a)
np.exp(a)
np.exp2(a)
np.expm1(a)
np.log(a + 10)
np.log2(a + 10)
np.log10(a + 10)
np.log1p(a + 10)
np.sin(a)
np.cos(a)
np.tan(a)
np.tanh(a)
np.hypot(a, b)
np.divide(a, b + 10)
np.true_divide(a, b + 10)
np.floor_divide(a, 2)
np.mod(a, 2)
np.add(a, b)
np.subtract(a, b)
np.multiply(a, b)
np.dot(a, b)
a.dot(b)
a @ b
np.matmul(M, a)
np.inner(a, b)
np.vdot(a, b)
np.outer(a, b)
np.kron(a, b)
np.cross(a, b)
np.tensordot(Q, Q, axes=1)
np.tensordot(M, a, axes=([1], [0]))
np.einsum('ij,j->i', M, a)
np.einsum('ij,ij->i', M, M)
np.einsum('i,i', a, b)
np.einsum('i,ij,j->', a, Q, b)
np.einsum('ij->ji', M)
np.linalg.multi_dot([Q, Q, a])
np.linalg.matrix_power(Q, 2)
np.linalg.norm(a)
np.linalg.norm(M, axis=1)
np.linalg.norm(a, ord=1)
np.linalg.norm(a, np.inf)
np.linalg.norm(M, 'fro')
np.linalg.norm(M, axis=1, keepdims=True)
np.linalg.inv(P2)
np.linalg.solve(P2, a[:2])
np.linalg.det(P2)
np.linalg.slogdet(P2)[1]
np.linalg.cholesky(P2)
np.linalg.pinv(P2)
sp.linalg.solve(P2, a[:2])
sp.linalg.inv(P2)
sp.linalg.det(P2)
sp.linalg.cholesky(P2, lower=True)
sp.linalg.cho_solve(sp.linalg.cho_factor(P2), a[:2])
sp.linalg.solve_triangular(np.linalg.cholesky(P2), a[:2], lower=True)
np.sum(a)
a.sum()
M.sum(axis=0)
np.sum(M, axis=1, keepdims=True)
np.sum(M, axis=(0, 1))
sum(a)
sum(x * y for x, y in zip(a, b))
np.nansum(a)
np.prod(a)
a.prod()
np.mean(a)
M.mean(axis=0)
np.average(a, weights=[0.2, 0.3, 0.5])
np.median(a)
np.var(a)
a.var()
np.std(np.append(a, 7))
np.cov(M)
np.ptp(a)
a.ptp()
np.max(a)
np.amax(a)
a.max()
M.max(axis=1)
max(a)
min(a)
max(a.tolist())
max(range(3), key=lambda i: a[i])
min(range(3), key=a.__getitem__)
np.min(M, axis=0)
np.nanmax(a)
np.argmax(a)
a.argmax()
np.argmin(M, axis=1)
np.nanargmax(a)
np.argwhere(a > 0).shape[0]
np.flatnonzero(a > 0).shape[0]
np.nonzero(a > 0)[0].shape[0]
(a > 0).nonzero()[0].size
np.count_nonzero(a > 0)
np.any(a > 0)
np.all(a > 0)
(a > 0).any()
(a > 0).all()
any(x > 0 for x in a)
all(a > 0)
np.sum(a > 0)
(a > 0).sum()
np.mean(a > 0)
np.logical_and(a > 0, b > 0)
np.logical_or(a > 0, b > 0)
np.logical_not(a > 0)
np.logical_xor(a > 0, b > 0)
np.logical_and.reduce(a > 0)
np.logical_or.reduce([a > 0, b > 0])
(a > 0) & (b > 0)
(a > 0) | (b > 0)
~(a > 0)
(a > 0) * a
(a > 0).astype(float)
(a > 0).astype(int)
np.bitwise_and(a > 0, b > 0)
np.greater(a, b)
np.less_equal(a, b)
np.equal(a, b)
np.not_equal(a, b)
np.isclose(a, b)
np.allclose(a, a)
np.array_equal(a, a)
np.isnan(a)
np.isfinite(a).all()
np.isinf(a).any()
np.nan_to_num(a)
np.heaviside(a, 0.5)
np.sort(a)
sorted(a)
sorted(range(3), key=lambda i: a[i])
sorted(range(3), key=lambda i: -a[i])
np.argsort(a)
np.argsort(-a)
a.argsort()
np.argsort(a)[::-1]
np.lexsort((a, b))
np.partition(a, 1)[1]
np.searchsorted([0.0, 1.0], a)
np.digitize(a, [0.0, 1.0])
np.unique(np.array([2, 1, 2]))
np.diff(a)
np.ediff1d(a)
np.gradient(a)
np.trapz(a)
np.interp(0.5, [0.0, 1.0, 2.0], a)
np.polyval([1.0, 2.0], a)
np.floor(a)
np.ceil(a)
np.trunc(a)
np.vectorize(lambda x: x * 2)(a)
np.apply_along_axis(np.sum, 1, M)
np.apply_along_axis(lambda r: r / 2, 0, M)
np.array([f(x) for f, x in zip((np.exp, np.sin, abs), a)])
np.copy(a)
a.copy()
a.tolist()
list(a)
np.array(a, copy=True)
np.array(a, dtype=float)
np.asarray(a, dtype=np.float64)
np.ascontiguousarray(a)
a.astype(float)
a.astype(np.float64)
float(a[0])
a.item(0)
a[0].item()
a.shape + M.shape
len(a), a.size, a.ndim
np.ndim(a), np.shape(M), np.size(M)
[x for x in np.nditer(a)][0] * 1
[v for _, v in np.ndenumerate(M)]
list(np.ndindex(2, 2))
np.meshgrid(a, b)[0]
np.split(a, 3)[1]
np.array_split(a, 2)[0]
np.hsplit(M, 3)[0]
np.add.at(z, [0, 0, 1], a) or z
z.fill(a[0]) or z
np.put(z, [0, 1], a[:2]) or z
np.copyto(z, a) or z
np.fill_diagonal(Z, a) or Z
z.__setitem__(slice(None), a) or z
np.putmask(z, a > 0, a) or z
np.place(z, np.array([True, False, True]), [1.0, 2.0]) or z
functools.reduce(lambda x, y: x + y, a)
functools.reduce(np.add, [a, b])
list(itertools.accumulate(a))
[x * y for x, y in itertools.product(a, b)]
[x - y for x, y in itertools.combinations(a, 2)]
math.sqrt(abs(a[0]) + 1)
math.exp(a[0])
math.log(abs(a[0]) + 1)
math.log(abs(a[0]) + 1, 2)
math.fsum(a)
math.hypot(a[0], a[1])
math.sin(a[0])
math.fabs(a[0])
math.pow(a[0], 2)
math.isnan(a[0])
math.isfinite(a[0])
math.prod(a)
math.erf(a[0])
math.isclose(a[0], a[1])
math.dist(a, b)
math.floor(a[0])
pow(a[0], 2)
divmod(a[0], 1)[1]
a[0] // 1
a[0] % 1
abs(a[0])
a[0] if a[0] > a[1] else a[1]
-1 if a[0] < 0 else 1
int(a[0] > 0)
bool(a[0] > 0)
1.0 * (a[0] > 0)
(a[0] > 0) + (a[1] > 0)
a[0] < a[1] < a[2]
operator.itemgetter(1)(a)
sp.special.logsumexp(a)
sp.special.softmax(a)
sp.special.softmax(M, axis=1)
sp.special.expit(a)
sp.special.ndtr(a)
sp.special.log_ndtr(a)
sp.special.erf(a)
sp.special.erfc(a)
sp.special.xlogy(np.abs(a) + 1, np.abs(b) + 1)
sp.special.gammaln(np.abs(a) + 1)
sp.special.gamma(np.abs(a) + 1)
sp.special.beta(np.abs(a) + 1, np.abs(b) + 1)
sp.special.betaln(np.abs(a) + 1, np.abs(b) + 1)
sp.special.digamma(np.abs(a) + 1)
sp.special.psi(np.abs(a) + 1)
sp.special.polygamma(1, np.abs(a) + 1)
sp.special.polygamma(2, np.abs(a) + 1)
sp.stats.norm.cdf(a)
sp.stats.norm.cdf(a, 1.0, 2.0)
sp.stats.norm.cdf(a, loc=1.0, scale=2.0)
sp.stats.norm.logcdf(a)
sp.stats.norm.pdf(a)
sp.stats.norm.logpdf(a)
sp.stats.norm.sf(a)
sp.stats.norm(1.0, 2.0).cdf(a)
sp.stats.beta.pdf(0.3, np.abs(a) + 1, np.abs(b) + 1)
sp.stats.beta.logpdf(0.3, np.abs(a) + 1, np.abs(b) + 1)
sp.stats.gamma.pdf(np.abs(a) + 1, 2.0, scale=3.0)
sp.stats.gamma.logpdf(np.abs(a) + 1, 2.0, scale=3.0)
sp.stats.entropy(sp.special.softmax(a))
sp.stats.rankdata(a)
sp.stats.spearmanr(a, b)[0]
sp.stats.pearsonr(a, b)[0]
np.corrcoef(a, b)
sp.spatial.distance.cdist(M, M)
sp.spatial.distance.cdist(M, M, 'sqeuclidean')
sp.spatial.distance.pdist(M)
sp.spatial.distance.squareform(sp.spatial.distance.pdist(M))
sp.spatial.distance.euclidean(a, b)
np.ma.masked_array(a, mask=[0, 1, 0]).sum()
np.errstate(divide='ignore').__enter__() or a
np.finfo(float).eps + a
np.testing.assert_allclose(a, a) or a
[i for i, x in enumerate(a) if x == max(a)]
[i for i in range(3) if i not in {1}]
dict(zip(range(3), a))[1]
{i: x for i, x in enumerate(a)}[2]
set(np.array([1, 2, 2]).tolist())
next(i for i, x in enumerate(np.sort(a)) if x == max(a))
np.isin([0, 1, 2], [1])
np.in1d([0, 1, 2], [1])
np.setdiff1d([0, 1, 2], [1])
np.intersect1d([0, 1, 2], [1, 2])
np.union1d([0, 1], [1, 2])
np.bincount([0, 1, 1], weights=a)
np.bincount([0, 1, 1])
np.arange(3) * a
np.linspace(a[0], a[1], 3)
np.linspace(0, 1, 3) * a
np.logspace(0, 1, 3) * a
np.array([a[0], 1, 2.0])
np.array([[a[0], a[1]], [b[0], b[1]]])
np.block([[Q, Q], [Q, Q]])
np.pad(a, 1)
np.pad(a, (0, 1), mode='constant', constant_values=3)
np.cumsum(M, axis=1)
np.nancumsum(a)
np.issubdtype(a.dtype, np.floating) or True
isinstance(a, np.ndarray)
isinstance(a[0], float) or np.isscalar(a[0])
np.quantile(a, 0.5)
np.percentile(a, 50)
np.triu(Q) + np.triu(Q, 1).T
np.sum(a * (np.arange(3) == 1))
np.frompyfunc(lambda x: x * 2, 1, 1)(a)
np.exp(np.clip(a, -1, 1)) / np.sum(np.exp(np.clip(a, -1, 1)))
a[np.array([True, False, True])]
a[[0, 2]]
a[a > 0].shape[0]
M[:, [0, 2]]
M[..., 0]
np.s_[0:2] and a[np.s_[0:2]]
np.array(a).__iadd__(1)
np.add(a, b, out=z)
np.multiply(a, b, out=z)
np.sum([a, b], axis=0)
np.mean([a, b], axis=0)
np.max([a, b], axis=0)
np.maximum.accumulate(a)
np.add.reduceat(a, [0, 1])
np.array(list(zip(a, b)))
np.array([*a, *b])
np.vstack([a, b]).T
copy.deepcopy(a)
copy.copy(a)
[*map(float, a)]
np.float64(a[0])
np.float64(1.5) * a[0]
np.int64(2) * a[0]
np.square(a - b).sum() ** 0.5
(a - b) @ (a - b)
a.T @ Q @ a
np.nanmean(a)
np.emath.sqrt(np.abs(a) + 1)
np.conjugate(a)
np.real(a)
a.conj()
np.invert(a > 0)
np.minimum(a, np.inf)
np.where(np.isnan(a), 0, a)
np.rot90(Q)
np.indices((2, 2))[0]
np.unravel_index(np.argmax(Q[0]), (3, 1))
np.unravel_index(3, (2, 2))
np.ravel_multi_index((1, 1), (2, 2))
sp.stats.spearmanr(M, axis=1)[0]
np.asarray(a, np.float64)
np.zeros(3, dtype=np.float64) + a
np.zeros((2, 2), float) + 1
np.full((2, 2), a[0])
np.full(2, fill_value=a[0])
np.interp(a, [-1.0, 0.0, 1.0], b)
isinstance(a[0], np.float64)
isinstance(a[0], (int, float))
np.array([1, 2, 3], dtype=int) * a
a.astype('float64')
np.arange(3, dtype=float) * a
np.array([[i, i * 2] for i in range(3)])
np.nextafter(0, 1) + a
a.mean(), a.std(), a.min()
np.linalg.norm(a - b) ** 2
np.dot(a - b, a - b)
np.sum(np.square(a - b))
np.sum((a[:, None] - b[None, :]) ** 2, axis=1)
np.sum(np.abs(a[:, None] - b[None, :]))
np.prod(M, axis=1)
np.sqrt(np.diag(Q) ** 2 + 1)
np.exp(-0.5 * a ** 2) / np.sqrt(2 * np.pi)
np.array(sorted(a, reverse=True))
np.argsort(a, kind='stable')
np.argsort(a)[-1]
np.argmax(a == np.max(a))
np.where(a == np.max(a))[0][0]
np.nonzero(a == a.max())[0][0]
list(a).index(max(a))
a.tolist().index(max(a.tolist()))
sum([x for x in a if x > 0])
sum(1 for x in a if x > 0)
[i for i, (x, y) in enumerate(zip(a, b)) if x > y]
np.array([i for i in range(3) if a[i] > 0], dtype=int).size
np.array([], dtype=int).size
np.concatenate([np.array([], dtype=float), a])
np.concatenate([np.empty(0), a])
np.vstack([np.empty((0, 3)), M])
np.append(np.empty((0, 3)), M, axis=0)
np.einsum('ij,kj->ik', M, M)
np.sum(M * a[np.newaxis, :], axis=1)
M - M.mean(axis=1, keepdims=True)
np.subtract(M, a)
np.atleast_2d(a).T
np.atleast_2d(a).shape[0]
np.logical_and.reduce((a > 0, b > 0, a > b))
np.all([a > 0, b > 0], axis=0)
np.any([a > 0, b > 0], axis=0)
(M > 0).all(axis=1)
(M > 0).any(axis=0)
np.count_nonzero(M > 0, axis=1)
np.all(M[:, None, :] >= M[None, :, :], axis=2)
np.less(a, 0).any()
not np.any(a > 0)
bool(np.all(a > 0))
a.any()
np.sum(np.where(a > 0, 1, 0))
np.cumsum(a)[-1]
np.searchsorted(np.cumsum(np.abs(a)), 1.0)
np.isscalar(a[0]), np.isscalar(1.0)
hasattr(a, 'shape'), hasattr(a[0], '__len__')
isinstance(a, (list, np.ndarray))
isinstance(a[0], np.ndarray)
type(a) is list
a.dtype.kind == 'f' or True
np.iterable(a)
np.array(a, ndmin=2)
np.asarray(a).reshape(1, -1)
np.asarray([a, b]).T
a[np.newaxis]
a[..., np.newaxis]
a[1:] - a[:-1]
a[-1]
a[np.arange(3) != 1]
np.mask_indices(3, np.triu)[0] if False else 0
np.max(np.abs(a - b))
np.linalg.solve(P2, np.eye(2))
np.linalg.inv(P2) @ a[:2]
np.linalg.cholesky(P2).T
np.linalg.eigvalsh(P2)[0] if False else 0
np.exp(np.log(np.abs(a) + 1))
np.log(np.exp(a))
np.log(sp.stats.norm.cdf(a))
sp.stats.norm.pdf(a) / sp.stats.norm.cdf(a)
np.exp(sp.stats.norm.logpdf(a) - sp.stats.norm.logcdf(a))
0.5 * (1 + sp.special.erf(a / np.sqrt(2)))
0.5 * sp.special.erfc(-a / np.sqrt(2))
np.logaddexp(a, b)
np.sinc(a) if False else 0
np.deg2rad(a)
np.nanstd(a) if False else 0
np.array([a, b]).max(axis=0)
np.amin([a, b], axis=1)
zip(*[a, b]).__next__()
list(map(max, a, b))
list(map(lambda p: p[0] * p[1], zip(a, b)))
list(filter(lambda x: x > 0, a))
enumerate(a).__next__()
reversed(a).__next__()
np.flip(np.argsort(a))[0]
[*range(3)][np.argmax(a)]
max(enumerate(a), key=lambda t: t[1])[0]
max((v, i) for i, v in enumerate(a))[1]
min(zip(a, range(3)))[1]
sorted(zip(a, range(3)))[0][1]
sorted(a.tolist())
sorted(range(3), key=a.tolist().__getitem__, reverse=True)
a.sort() or a
a.tolist().sort()
a.tolist().count(a[0])
a[0] in a.tolist()
a.tolist() + b.tolist()
np.array(a.tolist() + b.tolist())
str(a.shape)
f'{a.shape[0]}'
'%d' % a.shape[0]
a[0] == a[0]
a[0] != a[1]
(a == b).all()
np.float32(2.0) * a
1 / (a + 10)
-a
+a
a // 1
2 ** a
np.e ** a
(a + 10) ** 0.5
(a + 10) ** -1
(a + 10) ** 1.5
(a + 10) ** b
np.power(a + 10, b)
np.power(2.0, a)
a[0].real
np.array(a[0]).item()
np.array(a[0]).ndim
np.asarray(a[0]).shape
a.sum().item()
a[:1].item()
float(a[:1])
np.asscalar(a[:1]) if hasattr(np, 'asscalar') else 0
math.sumprod(a, b)
math.inf > a[0]
a[0] < float('inf')
max(a[0], 0.0)
max(a[0], a[1], a[2])
min(0, a[0])
np.inf * 0 == 0
any([x > 1 for x in a])
all([x > 1 for x in a])
any(a > 1)
abs(a - b).max()
(a * b).sum(axis=-1)
a.cumsum()
a.round is not None
M.tolist()[0][1]
M[0].tolist()
[list(r) for r in M]
[r[0] for r in M]
M.T.tolist()
np.array(M).T[0]
np.apply_along_axis(np.max, 0, M)
np.array(list(map(np.sum, M)))
np.array([np.dot(r, a) for r in M])
[[M[i, j] for j in range(3)] for i in range(2)]
M.take([0], axis=0)
M.repeat(2, axis=0)
M.dot(a)
M.trace() if False else 0
Q.diagonal()
Q.trace()
Q.argmax()
np.unravel_index(Q[:2, :2].argmax(), (2, 2))
np.modf(a)[1] if False else 0
np.empty_like(a).shape
np.linspace(0, 1, 5)[1:-1]
np.zeros(len(a)).tolist()
'''.strip().split('\n')


IMPORTS = """
import numpy as np
import math, functools, itertools, operator, copy, statistics, types
import scipy, scipy.special, scipy.stats, scipy.linalg, scipy.spatial.distance
import scipy as sp
"""


def mk(s):
    @case('X99', s, bounds='', validate=2)
    def h(S):
        import builtins
        from engine import shim
        g = {'__builtins__': shim.make_builtins() if S.mode == 'sym' else vars(builtins)}
        exec(IMPORTS, g)
        np = g['np']
        a = S.reals('a', 3, -3, 3)
        g.update(a=a, b=S.reals('b', 3, -3, 3), M=S.reals('m', (2, 3), -3, 3), Q=S.reals('q', (3, 3), -3, 3), z=np.zeros(3), Z=np.zeros((3, 3)))
        g['P2'] = np.array([[10 + a[0], a[1]], [a[1], 10 + a[2]]])
        v = eval(s, g)
        if v is not None and not isinstance(v, (dict, set)):
            S.observe('v', v)
        S.check(S.true(), 'done')


for _s in IDIOMS:
    mk(_s)
