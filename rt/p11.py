import os
import tempfile
from .common import *
import tslearn.utils as U
from tslearn.utils import (to_time_series, to_time_series_dataset, ts_size, check_equal_size, ts_zeros, time_series_to_str,
                           str_to_time_series, save_time_series_txt, load_time_series_txt, check_dims, to_sklearn_dataset)


def _data(t, lo=1, hi=7, d=None, n=None, equal=False):
    d = d or t.choice([1, 1, 2, 3])
    n = n or t.integers(1, 5)
    sz = t.integers(lo, hi)
    X = []
    for _ in range(n):
        x = t.values((sz if equal else t.integers(lo, hi), d))
        if t.coin(.3):
            x = x * 10. ** t.integers(-12, 12) / 3.
        if t.coin(.2) and len(x) > 1:      # missing values which are not a tail
            x = x.copy()
            for _ in range(t.integers(1, 3)):
                x[t.integers(0, len(x) - 2), t.integers(0, d - 1)] = np.nan
        if t.coin(.15) and d > 1:            # partially missing last row: not padding
            x = x.copy()
            x[-1, 0] = np.nan
        X.append(x)
    return X, d


def _exact(t, A, X, msg):
    """A: 3d dataset that must hold exactly the series X, then NaN"""
    A = tonp(A)
    d = X[0].shape[1]
    t.same(A.shape, (len(X), max(len(x) for x in X), d), msg + ': shape')
    for i, x in enumerate(X):
        t.ok(np.array_equal(A[i, :len(x)], x, equal_nan=True), f'{msg}: values of series {i}: {describe(A[i])} instead of {describe(x)}')
        t.ok(np.all(np.isnan(A[i, len(x):])), f'{msg}: tail of series {i} is not padding')


def _dress(t, X):
    out = []
    for x in X:
        k = t.choice(['arr', 'list', 'tuple', 'pad', 'f', 'flat'])
        if k == 'list':
            x = x.tolist()
        elif k == 'tuple':
            x = tuple(map(tuple, x))
        elif k == 'pad':
            x = np.vstack([x, np.full((t.integers(1, 3), x.shape[1]), np.nan)])
        elif k == 'f':
            x = np.asfortranarray(x)
        elif k == 'flat' and x.shape[1] == 1:
            x = x[:, 0]
        out.append(x)
    return out


@case('P11', weight=6)
def build_dataset(t):
    X, d = _data(t)
    be = t.choice(['numpy', 'numpy', 'torch'])
    if be == 'torch' and torch is not None:
        Z = [torch.tensor(np.vstack([x, np.full((t.integers(0, 2), d), np.nan)])) for x in X]
    else:
        Z = _dress(t, X)
        if t.coin(.2):
            Z = tuple(Z)
    t.inp(dataset=Z)
    A = to_time_series_dataset(Z)
    _exact(t, A, X, 'to_time_series_dataset')
    t.same([int(ts_size(a)) for a in A], [len(x) for x in X], 'ts_size of the rows')
    for a, x in zip(A, X):
        t.ok(np.array_equal(tonp(to_time_series(a, remove_nans=True)), x, equal_nan=True), 'to_time_series(remove_nans=True) is not the input series')
    t.same(bool(check_equal_size(Z)), len({len(x) for x in X}) == 1, 'check_equal_size')
    t.same(bool(check_equal_size(A)), len({len(x) for x in X}) == 1, 'check_equal_size of the dataset')
    _exact(t, to_time_series_dataset(A), X, 'to_time_series_dataset is idempotent')


@case('P11', weight=3)
def single_series(t):
    x = t.values((t.integers(1, 6), t.choice([1, 2, 3])))
    z = t.layout(x)
    t.inp(ts=z)
    r = tonp(to_time_series(z, remove_nans=True))
    t.ok(np.array_equal(r, x), f'to_time_series: {describe(r)} instead of {describe(x)}')
    t.same(int(ts_size(z)), len(x), 'ts_size')
    full = tonp(to_time_series(z))
    t.ok(full.shape[1] == x.shape[1] and np.array_equal(full[:len(x)], x) and np.all(np.isnan(full[len(x):])), 'to_time_series')
    if x.shape[1] == 1:
        y = x[:, 0].tolist() if t.coin() else x[:, 0]
        t.inp(ts=y)
        _exact(t, to_time_series_dataset(y), [x], 'dataset of one series of scalars')
    i = t.values((t.integers(1, 5), 2), 'int').astype(int)
    t.inp(ts=i)
    r = to_time_series(i)
    t.ok(r.dtype == float and np.array_equal(r, i), 'integer series')
    r = to_time_series_dataset([i], dtype=t.choice([float, np.float64]))
    t.ok(r.dtype == float and np.array_equal(r[0], i), 'integer dataset')


@case('P11', weight=2)
def sizes(t):
    d = t.choice([1, 2, 3])
    x = t.values((t.integers(0, 5), d))
    for _ in range(t.integers(0, 3)):
        if x.size:
            x[t.integers(0, len(x) - 1), t.integers(0, d - 1)] = np.nan
    pad = t.integers(0, 3)
    z = np.vstack([x, np.full((pad, d), np.nan)])
    t.inp(ts=z)
    n = len(z)
    while n and all(math.isnan(v) for v in z[n - 1]):
        n -= 1
    t.same(int(ts_size(z)), n, 'ts_size')
    t.same(tonp(to_time_series(z, remove_nans=True)).shape, (n, d), 'to_time_series(remove_nans)')
    if torch is not None:
        t.same(int(ts_size(torch.tensor(z))), n, 'ts_size (torch)')
    if n:
        t.same(bool(U.check_equal_size([z, z[:n], t.values((n, d), 'gauss')])), True, 'check_equal_size')
        t.same(bool(U.check_equal_size([z, t.values((n + 1, d), 'gauss')])), False, 'check_equal_size')
        t.same(bool(U.check_equal_size([z, z[:n], t.values((n, d), 'gauss'), t.values((n + 1, d), 'gauss')])), False, 'check_equal_size')
    t.ok(np.array_equal(ts_zeros(n, d), np.zeros((n, d))), 'ts_zeros')


@case('P11', weight=4)
def text_round_trip(t):
    X, d = _data(t)
    x = X[0]
    t.inp(ts=x)
    r = str_to_time_series(time_series_to_str(x))
    t.ok(np.array_equal(r, x, equal_nan=True), f'str_to_time_series(time_series_to_str(ts)) = {describe(r)}')
    A = to_time_series_dataset(X)
    src = X if t.coin() else A
    t.inp(dataset=src)
    fd, fn = tempfile.mkstemp(suffix='.txt', prefix='tsverif')
    os.close(fd)
    try:
        save_time_series_txt(fn, src)
        _exact(t, load_time_series_txt(fn), X, 'load_time_series_txt(save_time_series_txt)')
    finally:
        os.unlink(fn)


def _pair(name):
    try:
        return getattr(U, 'to_%s_dataset' % name), getattr(U, 'from_%s_dataset' % name)
    except AttributeError:
        raise Skip


@case('P11', weight=6)
def conversions(t):
    name = t.choice(['pyts', 'seglearn', 'stumpy', 'sktime', 'pyflux', 'tsfresh', 'cesium'])
    f, g = _pair(name)
    eq = name in ('pyts', 'pyflux')
    X, d = _data(t, equal=eq or t.coin(.3), n=1 if name == 'pyflux' else None)
    if name == 'cesium' and min(map(len, X)) < 2:
        raise Skip   # cesium itself rejects a single multivariate measurement
    if name in ('pyts', 'cesium', 'stumpy') or t.coin(.5):
        X = [np.nan_to_num(x, nan=.25) for x in X]
    if name == 'pyflux' and math.isnan(X[0][-1].max()) and d == 1:
        raise Skip
    if name == 'sktime':   # one pandas Series per dimension: padding is per series, all dimensions share the length
        pass
    Z = _dress(t, X)
    t.inp(library=name, dataset=Z)
    try:
        Y = f(Z)
    except ImportError:
        raise Skip
    if name == 'pyts':
        t.same(np.asarray(Y).shape, (len(X), len(X[0])) if d == 1 else (len(X), d, len(X[0])), 'pyts layout')
        t.ok(all(np.array_equal(np.asarray(Y)[i], x[:, 0] if d == 1 else x.T) for i, x in enumerate(X)), 'pyts values')
    elif name == 'seglearn':
        t.ok(len(Y) == len(X) and all(np.array_equal(np.asarray(y, dtype=float), x, equal_nan=True) for y, x in zip(Y, X)), 'seglearn values')
    elif name == 'stumpy':
        t.ok(len(Y) == len(X) and all(np.array_equal(y, x[:, 0] if d == 1 else x.T) for y, x in zip(Y, X)), 'stumpy values')
    elif name == 'sktime':
        t.same(list(Y.columns), ['dim_%d' % k for k in range(d)], 'sktime columns')
        t.ok(all(np.array_equal(Y['dim_%d' % k][i].values, x[:, k], equal_nan=True) for k in range(d) for i, x in enumerate(X)), 'sktime values')
    elif name == 'pyflux':
        t.ok(np.array_equal(Y.values, X[0], equal_nan=True), 'pyflux values')
    elif name == 'tsfresh':
        t.same(len(Y), sum(map(len, X)), 'tsfresh rows')
        for i, x in enumerate(X):
            sub = Y[Y['id'] == i]
            t.ok(list(sub['time']) == list(range(len(x))), 'tsfresh times')
            t.ok(np.array_equal(sub[['dim_%d' % k for k in range(d)]].values.astype(float), x, equal_nan=True), 'tsfresh values')
    elif name == 'cesium':
        t.same(len(Y), len(X), 'cesium number of series')
    _exact(t, g(Y), X, f'from_{name}_dataset(to_{name}_dataset(X))')


@case('P11', weight=1)
def tsfresh_ids(t):
    """long format with arbitrary ids: the series come in order of appearance or of sorted ids, each with its own values"""
    try:
        import pandas as pd
    except ImportError:
        raise Skip
    f, g = _pair('tsfresh')
    n, d = t.integers(1, 4), t.integers(1, 2)
    ids = [int(v) for v in t.rng.choice(np.arange(0, 1000, 7), size=n, replace=False)]
    if t.coin():
        ids = ['s%d' % v for v in ids]
    X = [t.values((t.integers(1, 5), d), 'gauss') for _ in ids]
    df = pd.concat([pd.DataFrame(dict([('id', [i] * len(x)), ('time', np.arange(len(x)))] + [('dim_%d' % k, x[:, k]) for k in range(d)])) for i, x in zip(ids, X)])
    t.inp(ids=ids, X=X)
    r = g(df)
    order = sorted(range(n), key=lambda k: ids[k])
    try:
        _exact(t, r, X, 'from_tsfresh_dataset')
    except Fail:
        _exact(t, r, [X[k] for k in order], 'from_tsfresh_dataset (order of appearance or of ids)')


@case('P11', weight=2)
def layouts(t):
    X, d = _data(t, equal=True)
    sz = len(X[0])
    X = [np.nan_to_num(x, nan=.25) for x in X]
    t.inp(dataset=X)
    S = to_sklearn_dataset(X)
    t.ok(np.array_equal(S, np.array(X).reshape(len(X), sz * d)), 'to_sklearn_dataset')
    S2, dd = to_sklearn_dataset(X, return_dim=True)
    t.ok(dd == d and np.array_equal(S2, S), 'to_sklearn_dataset(return_dim=True)')
    A = np.array(X)
    B = A[:, :, 0] if d == 1 else A
    r = check_dims(B)
    t.ok(np.array_equal(r, A), 'check_dims')
    r = check_dims(A, X_fit_dims=A.shape)
    t.ok(np.array_equal(r, A), 'check_dims')
    t.raises(ValueError, lambda: check_dims(A, X_fit_dims=(len(X), sz, d + 1)), 'check_dims, other dimension')
    t.raises(ValueError, lambda: check_dims(A, X_fit_dims=(len(X), sz, d + 1), check_n_features_only=True), 'check_dims, other dimension')
    t.raises(ValueError, lambda: check_dims(A, X_fit_dims=(len(X), sz + 1, d)), 'check_dims, other length')
    t.ok(np.array_equal(check_dims(A, X_fit_dims=(len(X), sz + 1, d), check_n_features_only=True), A), 'check_dims, features only')
    t.raises(ValueError, lambda: check_dims(None), 'check_dims(None)')
    if not hasattr(U, 'check_dataset'):
        return
    V = X + [t.values((sz + 1, d), 'gauss')]
    t.inp(dataset=V)
    _exact(t, U.check_dataset(V), V, 'check_dataset')
    t.raises(ValueError, lambda: U.check_dataset(V, force_equal_length=True), 'check_dataset(force_equal_length)')
    t.raises(ValueError, lambda: U.check_dataset(V, force_single_time_series=True), 'check_dataset(force_single_time_series)')
    _exact(t, U.check_dataset(V[-1:], force_single_time_series=True), V[-1:], 'check_dataset(force_single)')
    if d > 1:
        t.raises(ValueError, lambda: U.check_dataset(V, force_univariate=True), 'check_dataset(force_univariate)')
    else:
        _exact(t, U.check_dataset(V, force_univariate=True), V, 'check_dataset(force_univariate)')


@case('P11', weight=1)
def data_frame(t):
    try:
        import pandas as pd
    except ImportError:
        raise Skip
    A = t.values((t.integers(1, 4), t.integers(1, 6)), 'gauss')
    t.inp(frame=A)
    _exact(t, to_time_series_dataset(pd.DataFrame(A)), [a.reshape(-1, 1) for a in A], 'dataset from a DataFrame')
