from .common import *
from tslearn.utils import to_time_series_dataset
from tslearn.preprocessing import (TimeSeriesScalerMinMax, TimeSeriesScalerMeanVariance, TimeSeriesResampler, TimeSeriesImputer)


def _data(t, lo=1, hi=7, d=None, n=None, equal=None, nan=True):
    d = d or t.choice([1, 1, 2, 3])
    n = n or t.integers(1, 4)
    sz = t.integers(lo, hi)
    equal = t.coin(.4) if equal is None else equal
    X = []
    for _ in range(n):
        x = t.values((sz if equal else t.integers(lo, hi), d))
        if t.coin(.2):
            x = np.full(x.shape, t.choice([.1, 1 / 3., 1e-3, 12345.6789, -.7, 0.]))
        if t.coin(.15) and d > 1:
            x = x.copy()
            x[:, t.integers(0, d - 1)] = t.choice([.1, .3, 2.])
        if nan and t.coin(.2) and len(x) > 2:
            x = x.copy()
            x[t.integers(1, len(x) - 2), t.integers(0, d - 1)] = np.nan
        X.append(x)
    return X, d


def _groups(X, per_ts, per_feat):
    """list of (groups of (series, feature) index pairs sharing their statistics)"""
    g = {}
    for i, x in enumerate(X):
        for k in range(x.shape[1]):
            g.setdefault((i if per_ts else -1, k if per_feat else -1), []).append((i, k))
    return list(g.values())


def _vals(X, g):
    return [v for i, k in g for v in X[i][:, k].tolist() if not math.isnan(v)]


def _shape(t, R, A):
    R = tonp(R)
    t.same(R.shape, A.shape, 'shape of the transformed dataset')
    t.ok(np.array_equal(np.isnan(R), np.isnan(A)), 'missing values appeared or disappeared')
    return R


@case('P12', weight=5)
def minmax(t):
    X, d = _data(t)
    lo = t.choice([0., -1., .5, 3.])
    hi = lo + t.choice([1., 2., .25, 10.])
    pt, pf = t.coin(.6), t.coin(.6)
    A = to_time_series_dataset(X)
    if np.isnan(A).all():
        raise Skip
    before = A.copy()
    t.inp(X=A, value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
    sc = TimeSeriesScalerMinMax(value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
    R = _shape(t, sc.fit_transform(A), A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'the input was modified')
    for g in _groups(X, pt, pf):
        v = _vals(X, g)
        if not v:
            continue
        mn, mx = min(v), max(v)
        for i, k in g:
            x = X[i][:, k]
            exp = (x - mn) / ((mx - mn) or 1.) * (hi - lo) + lo
            t.close(R[i, :len(x), k], exp, 'min-max scaling', rtol=1e-9, atol=1e-9 * max(1, abs(hi), abs(lo)))
        r = _vals([R[i] for i in range(len(R))], g)
        t.close(min(r), lo, 'minimum after scaling', atol=1e-9)
        t.close(max(r), hi if mx > mn else lo, 'maximum after scaling', atol=1e-9)
    if not pt:   # statistics of the training set are applied to new data
        Y, _ = _data(t, d=d, nan=False)
        B = to_time_series_dataset(Y)
        t.inp(X=A, Y=B, value_range=(lo, hi), per_timeseries=pt, per_feature=pf)
        R = _shape(t, sc.transform(B), B)
        for g in _groups(X, pt, pf):
            v = _vals(X, g)
            if v:
                mn, mx = min(v), max(v)
                for k in {k for _, k in g}:
                    t.close(R[:, :, k], (B[:, :, k] - mn) / ((mx - mn) or 1.) * (hi - lo) + lo, 'min-max scaling of new data', rtol=1e-8, atol=1e-7)


@case('P12', weight=5)
def meanvar(t):
    X, d = _data(t)
    mu, std = t.choice([0., 0., 2., -1.5]), t.choice([1., 1., 3., .5])
    pt, pf = t.coin(.6), t.coin(.6)
    A = to_time_series_dataset(X)
    if np.isnan(A).all():
        raise Skip
    before = A.copy()
    t.inp(X=A, mu=mu, std=std, per_timeseries=pt, per_feature=pf)
    sc = TimeSeriesScalerMeanVariance(mu=mu, std=std, per_timeseries=pt, per_feature=pf)
    R = _shape(t, sc.fit_transform(A), A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'the input was modified')
    groups = []
    for g in _groups(X, pt, pf):
        v = _vals(X, g)
        if not v:
            continue
        m = math.fsum(v) / len(v)
        s = math.sqrt(math.fsum((a - m) ** 2 for a in v) / len(v)) if max(v) > min(v) else 1.
        groups.append((g, m, s))
        for i, k in g:
            x = X[i][:, k]
            t.close(R[i, :len(x), k], (x - m) / s * std + mu, 'standard scaling', rtol=1e-7, atol=1e-6)
        r = _vals([R[i] for i in range(len(R))], g)
        t.close(np.mean(r), mu, 'mean after scaling', atol=1e-6)
        t.close(np.std(r), std if max(v) > min(v) else 0., 'standard deviation after scaling', atol=1e-6)
    if not pt:
        Y, _ = _data(t, d=d, nan=False)
        B = to_time_series_dataset(Y)
        t.inp(X=A, Y=B, mu=mu, std=std, per_timeseries=pt, per_feature=pf)
        R = _shape(t, sc.transform(B), B)
        for g, m, s in groups:
            for k in {k for _, k in g}:
                t.close(R[:, :, k], (B[:, :, k] - m) / s * std + mu, 'standard scaling of new data', rtol=1e-6, atol=1e-5)


def _interp(x, n):
    """linear interpolation of the values x (positions 0..1) at n regular positions"""
    out = []
    for p in range(n):
        pos = p * (len(x) - 1) / (n - 1)
        i = min(int(pos), len(x) - 1)
        f = pos - i
        out.append(x[i] if f < 1e-12 or i + 1 >= len(x) else x[i] + f * (x[i + 1] - x[i]))
    return np.array(out)


@case('P12', weight=4)
def resampling(t):
    X, d = _data(t, nan=False)
    n = t.choice([-1, 2, 3, 5, 8, 13, 1])
    A = to_time_series_dataset(X)
    before = A.copy()
    t.inp(X=A, sz=n)
    R = TimeSeriesResampler(sz=n).fit_transform(A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'the input was modified')
    m = n if n > 0 else A.shape[1]
    t.same(R.shape, (len(X), m, d), 'shape after resampling')
    for i, x in enumerate(X):
        for k in range(d):
            if m == 1:
                t.close(R[i, 0, k], np.mean(x[:, k]), 'resampling to one point')
            else:
                t.close(R[i, :, k], _interp(x[:, k].tolist(), m), 'resampling', rtol=1e-9, atol=1e-9)
                t.ok(R[i, 0, k] == x[0, k] and abs(R[i, -1, k] - x[-1, k]) <= 1e-12 * (1 + abs(x[-1, k])), 'end points not kept')
    # each series is resampled on its own
    t.close(TimeSeriesResampler(sz=m).fit_transform(X[0][None]), R[:1], 'resampling alone')
    # variable-length lists are accepted too
    t.close(TimeSeriesResampler(sz=m).fit(X).transform(X), R, 'resampling of a list')


@case('P12', weight=8)
def imputation(t):
    d = t.choice([1, 1, 2, 3])
    X = []
    for _ in range(t.integers(1, 4)):
        x = t.values((t.integers(1, 8), d)).copy()
        p = t.choice([.1, .3, .5, .8])
        x[t.rng.random(x.shape) < p] = np.nan
        X.append(x)
    keep = t.coin(.6)
    method = t.choice(['mean', 'median', 'ffill', 'bfill', 'linear', 'constant', 'callable'])
    value = t.choice([0., -7.5, 3.])
    A = to_time_series_dataset(X)
    if A.shape[1] == 0:
        raise Skip
    before = A.copy()
    meth = method if method != 'callable' else (lambda ts: np.where(np.isnan(ts), 42., ts))
    src = A if t.coin() else X
    if any(np.isnan(x).all() for x in X) and src is X:
        src = A
    t.inp(X=src, method=method, value=value, keep_trailing_nans=keep)
    raw = [np.array(x) for x in X]
    R = tonp(TimeSeriesImputer(method=meth, value=value, keep_trailing_nans=keep).fit_transform(src))
    t.ok(np.array_equal(A, before, equal_nan=True) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(X, raw)), 'the input was modified')
    E = []
    for a in before:
        n = len(a)
        if keep:
            while n and np.isnan(a[n - 1]).all():
                n -= 1
        e = a.copy()
        for k in range(d):
            v = a[:n, k]
            known = [i for i in range(n) if not math.isnan(v[i])]
            for i in range(n):
                if not math.isnan(v[i]):
                    continue
                if method == 'constant':
                    e[i, k] = value
                elif method == 'callable':
                    e[i, k] = 42.
                elif not known:
                    pass
                elif method == 'mean':
                    e[i, k] = math.fsum(v[q] for q in known) / len(known)
                elif method == 'median':
                    s = sorted(v[q] for q in known)
                    e[i, k] = .5 * (s[(len(s) - 1) // 2] + s[len(s) // 2])
                elif method == 'ffill':
                    q = [q for q in known if q < i]
                    e[i, k] = v[q[-1]] if q else np.nan
                elif method == 'bfill':
                    q = [q for q in known if q > i]
                    e[i, k] = v[q[0]] if q else np.nan
                else:
                    l, r = [q for q in known if q < i], [q for q in known if q > i]
                    if not l:
                        e[i, k] = v[r[0]]
                    elif not r:
                        e[i, k] = v[l[-1]]
                    else:
                        l, r = l[-1], r[0]
                        e[i, k] = v[l] + (v[r] - v[l]) * (i - l) / (r - l)
        E.append(e)
    E = np.array(E)
    n = E.shape[1]
    while n and np.isnan(E[:, n - 1]).all():
        n -= 1
    t.same(R.shape[0::2], E.shape[0::2], 'shape after imputation')
    t.ok(n <= R.shape[1] <= E.shape[1], 'length after imputation')
    t.close(R[:, :n], E[:, :n], f'{method} imputation', rtol=1e-9, atol=1e-9)
    t.ok(np.isnan(R[:, n:]).all(), 'spurious values after the last sample')


@case('P12', weight=3)
def synchronizer(t):
    try:
        from tslearn.preprocessing import TimeSeriesFeatureSynchronizer as S
    except ImportError:
        raise Skip
    d, n, sz = t.integers(1, 3), t.integers(1, 3), t.integers(2, 7)
    ref = t.integers(0, d - 1)
    A = np.full((n, sz, d), np.nan)
    T_ = np.full((n, sz, d), np.nan)
    for i in range(n):
        for k in range(d):
            m = t.integers(1, sz)
            A[i, :m, k] = t.values((m,), 'gauss')
            T_[i, :m, k] = np.cumsum(t.rng.integers(1, 5, size=m)) + t.integers(0, 3)
    A[0, :, ref] = t.values((sz,), 'gauss')
    T_[0, :, ref] = np.cumsum(t.rng.integers(1, 5, size=sz))
    use = t.coin()
    ts = None
    if use:
        ts = np.full(T_.shape, np.datetime64('nat'), dtype='datetime64[s]')
        ts[~np.isnan(T_)] = (T_[~np.isnan(T_)]).astype('int64').astype('datetime64[s]')
    before, bts = A.copy(), None if ts is None else ts.copy()
    t.inp(X=A, timestamps=ts, reference_feature_index=ref)
    kw = dict(timestamps=ts) if use else {}
    R = S(reference_feature_index=ref).fit_transform(A, **kw)
    t.ok(np.array_equal(A, before, equal_nan=True), 'the input was modified')
    t.ok(ts is None or np.array_equal(ts.astype('int64'), bts.astype('int64')), 'the timestamps were modified')
    t.same(R.shape, A.shape, 'shape after synchronisation')
    for i in range(n):
        size = lambda k: int(np.sum(~np.isnan(A[i, :, k])))
        m = size(ref)
        for k in range(d):
            y = A[i, :size(k), k]
            if use:
                e = np.interp(T_[i, :m, ref], T_[i, :size(k), k], y)
            else:
                e = _interp(y.tolist(), m) if m > 1 else y[:1]
            t.close(R[i, :m, k], e, 'synchronised feature', rtol=1e-9, atol=1e-9)
            if k == ref:
                t.close(R[i, :m, k], y, 'reference feature')
            t.ok(np.isnan(R[i, m:, k]).all(), 'values after the end of the reference feature')
