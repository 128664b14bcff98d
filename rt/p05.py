from .common import *
import tslearn.metrics as M
from tslearn.utils import to_time_series_dataset
from tslearn.metrics.utils import _cdist_generic
from tslearn.backend import instantiate_backend


def dataset(t, lo=1, hi=4, d=None, slo=1, shi=6, kind=None):
    n = t.integers(lo, hi)
    d = t.choice([1, 1, 2]) if d is None else d
    return [t.series(slo, shi, d=d, kind=kind) for _ in range(n)]


def form(t, X):
    """ragged list / padded array / list of lists"""
    k = t.choice(['list', 'pad', 'pad', 'lists'])
    if k == 'list':
        return [x.copy() for x in X]
    if k == 'lists':
        return [x.tolist() for x in X]
    P = to_time_series_dataset([x.copy() for x in X])
    if t.coin(.3):
        P = np.concatenate([P, np.full((P.shape[0], t.integers(1, 3), P.shape[2]), np.nan)], axis=1)
    return P


METRICS = {
    'dtw': (M.cdist_dtw, M.dtw, 'gc'),
    'frechet': (M.cdist_frechet, M.frechet, 'gc'),
    'soft_dtw': (M.cdist_soft_dtw, M.soft_dtw, 'gcgamma'),
    'gak': (M.cdist_gak, M.gak, 'sigma'),
    'ctw': (M.cdist_ctw, M.ctw, 'ctw'),
    'soft_dtw_normalized': (M.cdist_soft_dtw_normalized, None, 'gcgamma'),
}


def kwargs(t, kind, X, Y):
    if kind == 'gcgamma':
        return dict(kwargs(t, 'gc', X, Y), **kwargs(t, 'gamma', X, Y))
    if kind == 'gc':
        n = max(len(x) for x in X)
        for _ in range(5):
            c = constraint(t, n, n)
            if all(omask(len(x), len(y), c) != 'warn' for x in X for y in (Y or X)):
                return c
        return {}
    if kind == 'gamma':
        return t.choice([{}, dict(gamma=.5), dict(gamma=2.)])
    if kind == 'sigma':
        return t.choice([dict(sigma=1.), dict(sigma=2.5)])
    return dict(max_iter=t.choice([1, 5]), n_components=1)


def _cross(t, name):
    cd, single, kind = METRICS[name]
    d = 1 if name == 'ctw' else None
    lo = 3 if name == 'ctw' else 1
    X = dataset(t, d=d, slo=lo, kind='gauss' if name == 'ctw' else None)
    Y = dataset(t, d=X[0].shape[1], slo=lo, kind='gauss' if name == 'ctw' else None) if t.coin(.6) else None
    kw = kwargs(t, kind, X, Y)
    nj = t.choice([None, None, 1, 2])
    kw2 = dict(kw, n_jobs=nj)
    A = form(t, X)
    B = None if Y is None else form(t, Y)
    t.inp(metric=name, X=A, Y=B, **kw2)
    R = tonp(cd(A, B, **kw2) if B is not None else cd(A, **kw2))
    Z = X if Y is None else Y
    t.same(R.shape, (len(X), len(Z)), 'shape of the pairwise matrix')
    for i in range(len(X)):
        for j in range(len(Z)):
            if single is None:
                e = M.soft_dtw(X[i], Z[j], **kw) - .5 * (M.soft_dtw(X[i], X[i], **kw) + M.soft_dtw(Z[j], Z[j], **kw))
            elif name == 'ctw' and Y is None and i > j:
                e = single(Z[j], X[i], **kw)
            else:
                e = single(X[i], Z[j], **kw)
            t.close(R[i, j], 0. if (name == 'ctw' and Y is None and i == j) else e, f'{name} entry ({i}, {j})', rtol=1e-6, atol=1e-6)
    if Y is None:
        t.close(R, R.T, 'symmetric self-similarity')
        if name not in ('ctw',):
            t.close(R, cd(A, A, **kw2), 'self-similarity equals the cross-similarity with itself', rtol=1e-6, atol=1e-6)


@case('P05', weight=4)
def cross_dtw(t):
    _cross(t, 'dtw')


@case('P05', weight=4)
def cross_frechet(t):
    _cross(t, 'frechet')


@case('P05', weight=3)
def cross_soft_dtw(t):
    _cross(t, 'soft_dtw')


@case('P05', weight=3)
def cross_soft_dtw_normalized(t):
    _cross(t, 'soft_dtw_normalized')


@case('P05', weight=3)
def cross_gak(t):
    _cross(t, 'gak')


@case('P05', weight=2)
def cross_ctw(t):
    _cross(t, 'ctw')


@case('P05', weight=3)
def generic_engine(t):
    """the pairwise engine with an arbitrary (asymmetric) function"""
    X, Y = dataset(t, 1, 6), None
    if t.coin(.6):
        Y = dataset(t, 1, 6, d=X[0].shape[1])
    be = instantiate_backend('numpy')
    diag = t.coin()
    nj = t.choice([None, 1, 2, 3])
    f = lambda a, b, c=0.: float(np.nansum(a) * 3 - np.nansum(b) + len(a) * 10 - len(b) + c)
    A, B = to_time_series_dataset(X), None if Y is None else to_time_series_dataset(Y)
    t.inp(X=A, Y=B, compute_diagonal=diag, n_jobs=nj)
    R = _cdist_generic(f, A, B, nj, 0, be, compute_diagonal=diag, dtype=float, c=.25)
    Z = X if Y is None else Y
    E = np.zeros((len(X), len(Z)))
    for i in range(len(X)):
        for j in range(len(Z)):
            if Y is None:
                if i == j and not diag:
                    continue
                E[i, j] = f(X[min(i, j)], X[max(i, j)], .25)
            else:
                E[i, j] = f(X[i], Z[j], .25)
    t.close(R, E, 'pairwise engine')


@case('P05', weight=2)
def torch_cross(t):
    X = dataset(t)
    Y = dataset(t, d=X[0].shape[1]) if t.coin(.6) else None
    name = t.choice(['dtw', 'frechet', 'soft_dtw', 'gak'])
    cd, single, kind = METRICS[name]
    kw = kwargs(t, kind, X, Y)
    t.inp(metric=name, X=X, Y=Y, **kw)
    P = to_time_series_dataset(X)
    Q = None if Y is None else to_time_series_dataset(Y)
    a = cd(P, Q, **kw) if Q is not None else cd(P, **kw)
    TP = torch.tensor(P)
    TQ = None if Q is None else torch.tensor(Q)
    b = cd(TP, TQ, **kw) if TQ is not None else cd(TP, **kw)
    t.close(b, a, f'{name} pairwise matrix on the torch backend', rtol=1e-5, atol=1e-6)
