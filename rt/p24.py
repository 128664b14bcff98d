"""caller data is never modified and repeated calls agree"""
import copy
import os
import shutil
import tempfile
from .common import *
import tslearn.metrics as M
import tslearn.barycenters as B
import tslearn.utils as U
from tslearn.metrics.utils import _cdist_generic
from tslearn.preprocessing import TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax, TimeSeriesResampler, TimeSeriesImputer, TimeSeriesFeatureSynchronizer
from tslearn.piecewise import PiecewiseAggregateApproximation, SymbolicAggregateApproximation, OneD_SymbolicAggregateApproximation
from tslearn.clustering import KShape, TimeSeriesKMeans, KernelKMeans, TimeSeriesDBSCAN, silhouette_score
from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
from tslearn.svm import TimeSeriesSVC, TimeSeriesSVR
from tslearn.matrix_profile import MatrixProfile
from tslearn.forecasting import VARIMA, AutoVARIMA
from tslearn.early_classification import NonMyopicEarlyClassifier
from tslearn.utils import to_time_series_dataset


def snap(v):
    if isinstance(v, np.ndarray):
        return ('nd', v.dtype.str, v.shape, v.strides, v.tobytes() if v.dtype != object else tuple(snap(x) for x in v.ravel()))
    if torch is not None and isinstance(v, torch.Tensor):
        return ('torch', str(v.dtype), tuple(v.shape), v.detach().numpy().tobytes(), v.requires_grad)
    if isinstance(v, dict):
        return ('dict', [(k, snap(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snap(x) for x in v])
    if hasattr(v, 'measurement'):
        return ('cesium', snap(list(v.time) if isinstance(v.time, list) else v.time), snap(v.measurement), snap(v.error))
    if hasattr(v, 'to_numpy') and hasattr(v, 'columns'):
        return ('frame', list(map(str, v.columns)), list(map(str, v.index)), repr(v.to_numpy().tolist()))
    if isinstance(v, (str, int, float, bool, type(None), np.generic)):
        return (type(v).__name__, repr(v))
    if hasattr(v, 'get_params'):
        return ('est', snap(v.get_params(deep=False)), snap({k: w for k, w in vars(v).items() if isinstance(w, (np.ndarray, list, dict, int, float, str))}))
    return ('obj', type(v).__name__)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if hasattr(a, 'measurement'):
        return same(a.measurement, b.measurement)
    if a is None or isinstance(a, (str, bool)):
        return a == b
    if hasattr(a, 'columns'):
        return a.equals(b)
    try:
        x, y = tonp(a), tonp(b)
    except Exception:
        return True
    if x.dtype == object:
        return x.shape == y.shape and all(same(p, q) for p, q in zip(x.ravel().tolist(), y.ravel().tolist())) if x.ndim else True
    if x.dtype.kind in 'OUSmM':
        return np.array_equal(x, y)
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)


def watch(t, f, *a, _repeat=True, _name=None, **kw):
    name = _name or getattr(f, '__qualname__', getattr(f, '__name__', str(f)))
    s = snap([a, kw])
    err = None
    try:
        r = f(*a, **kw)
    except Exception as e:
        if type(e).__module__.startswith('rt'):
            raise
        err = e
    for i, (x, y) in enumerate(zip(s[1], snap([a, kw])[1])):
        t.ok(x == y, f'{name} modified its {"positional" if i == 0 else "keyword"} arguments: {describe([a, kw][i], 1500)}' + (f' (it raised {err!r})' if err is not None else ''))
    if err is not None:
        if isinstance(err, (ValueError, NotImplementedError, RuntimeWarning)) or 'Empty' in type(err).__name__:
            return None
        raise err
    if _repeat:
        r0 = copy.deepcopy(r)
        r2 = f(*a, **kw)
        t.ok(same(r0, r2), f'{name} called twice gives {describe(r0, 500)} then {describe(r2, 500)}')
    return r


def _f(t, x):
    """memory layouts that could be aliased"""
    k = t.choice(['c', 'c', 'f', 'strided', 'int', 'list', 'pad', 'torch'])
    if k == 'f':
        return np.asfortranarray(x)
    if k == 'strided':
        y = np.full((x.shape[0] * 2,) + x.shape[1:], 99.)
        y[::2] = x
        return y[::2]
    if k == 'int':
        return np.round(x).astype(int)
    if k == 'list':
        return x.tolist()
    if k == 'pad' and x.ndim == 2:
        return np.vstack([x, np.full((2, x.shape[1]), np.nan)])
    if k == 'torch' and torch is not None:
        return torch.tensor(x)
    return np.ascontiguousarray(x)


def _one(t, d, lo=2, hi=6):
    return t.values((t.integers(lo, hi), d), t.choice(['gauss', 'int']))


@case('P24', weight=4)
def pair_metrics(t):
    d = t.choice([1, 1, 2])
    x, y = _one(t, d), _one(t, d)
    c = constraint(t, len(x), len(y))
    name = t.choice(['dtw', 'dtw_path', 'frechet', 'frechet_path', 'soft_dtw', 'soft_dtw_alignment', 'lcss', 'lcss_path', 'gak', 'unnormalized_gak',
                     'dtw_subsequence_path', 'dtw_limited_warping_length', 'dtw_path_limited_warping_length', 'dtw_path_from_metric',
                     'frechet_path_from_metric', 'lcss_path_from_metric', 'precomputed', 'ctw_path', 'accumulated', 'lb', 'mask', 'loss', 'subseq', 'sqeuc'])
    a = _f(t, x)
    b = _f(t, y)
    if isinstance(a, torch.Tensor) != isinstance(b, torch.Tensor):
        a, b = x.copy(), y.copy()
    t.inp(fun=name, s1=a, s2=b, **c)
    if name in ('dtw', 'dtw_path', 'frechet', 'frechet_path'):
        watch(t, getattr(M, name), a, b, **c)
    elif name in ('lcss', 'lcss_path'):
        watch(t, getattr(M, name), a, b, eps=t.choice([.5, 1.]), **c)
    elif name in ('soft_dtw', 'soft_dtw_alignment'):
        watch(t, getattr(M, name), a, b, gamma=t.choice([0., .5, 1.]) if name == 'soft_dtw' else 1., **c)
    elif name in ('gak', 'unnormalized_gak'):
        watch(t, getattr(M, name), a, b, sigma=2.)
    elif name == 'dtw_subsequence_path':
        watch(t, M.dtw_subsequence_path, a, b)
    elif name.endswith('limited_warping_length'):
        watch(t, getattr(M, name), a, b, len(x) + len(y))
    elif name.endswith('_from_metric'):
        p = dict(eps=1.) if 'lcss' in name else {}
        watch(t, getattr(M, name), a, b, metric=t.choice(['euclidean', 'sqeuclidean', 'cityblock']) if not isinstance(a, torch.Tensor) else 'euclidean', **p, **c)
    elif name == 'precomputed':
        D = np.array(O.cost_matrix(x, y))
        D = t.choice([D, np.asfortranarray(D), torch.tensor(D), D.astype(int), D.tolist()])
        f = t.choice([M.dtw_path_from_metric, M.frechet_path_from_metric, M.lcss_path_from_metric])
        watch(t, f, D, metric='precomputed', **c)
    elif name == 'ctw_path':
        if len(x) > 2 and len(y) > 2 and not isinstance(a, torch.Tensor):
            watch(t, M.ctw_path, a, b, max_iter=2, n_components=1)
    elif name == 'accumulated':
        mk = np.array(omask(len(x), len(y), {}))
        if t.coin() or isinstance(a, torch.Tensor):
            mk = torch.tensor(mk)
            a, b = torch.tensor(x), torch.tensor(y)
        else:
            a, b = x.copy(), y.copy()
        watch(t, t.choice([M.dtw_accumulated_matrix, M.frechet_accumulated_matrix]), a, b, mk)
    elif name == 'lb':
        n = min(len(x), len(y))
        q, r = x[:n, :1].copy(), y[:n, :1].copy()
        e = watch(t, M.lb_envelope, r, radius=t.integers(1, 3))
        watch(t, M.lb_keogh, q, r, radius=2)
        watch(t, M.lb_keogh, q, envelope_candidate=e)
    elif name == 'mask':
        watch(t, M.compute_mask, a, b, global_constraint=t.choice([0, 1, 2]), sakoe_chiba_radius=2, itakura_max_slope=3.)
    elif name == 'loss' and torch is not None:
        u, v = torch.tensor(x[None]), torch.tensor(y[None])
        watch(t, M.SoftDTWLossPyTorch(gamma=.5, normalize=t.coin()), u, v, _name='SoftDTWLossPyTorch')
    elif name == 'subseq':
        if not isinstance(a, torch.Tensor):
            acc = watch(t, M.subsequence_cost_matrix, x.copy(), y.copy())
            if acc is not None:
                watch(t, M.subsequence_path, acc, t.integers(0, len(y) - 1))
    elif name == 'sqeuc':
        X, Y = x.copy(), y.copy()
        s = M.SquaredEuclidean(X, Y)
        D = watch(t, lambda u, v: M.SquaredEuclidean(u, v).compute(), X, Y, _name='SquaredEuclidean.compute')
        E = t.values(D.shape, 'gauss')
        watch(t, lambda u, v, e: M.SquaredEuclidean(u, v).jacobian_product(e), X, Y, E, _name='jacobian_product')
        watch(t, lambda u: (lambda q: (q.compute(), q.grad()))(M.SoftDTW(u, gamma=.7)), D, _name='SoftDTW')


def _data(t, n=None, eq=None, d=None, lo=3):
    n, d = n or t.integers(2, 5), d or t.choice([1, 1, 2])
    eq = t.coin(.4) if eq is None else eq
    sz = t.integers(lo, 7)
    X = [t.values((sz if eq else t.integers(lo, 7), d), 'gauss') for _ in range(n)]
    return X, d


def _df(t, X):
    k = t.choice(['pad', 'pad', 'list', 'lists', 'torch', 'f'])
    P = to_time_series_dataset(X)
    if k == 'list':
        return [x.copy() for x in X]
    if k == 'lists':
        return [x.tolist() for x in X]
    if k == 'torch' and torch is not None:
        return torch.tensor(P)
    if k == 'f':
        return np.asfortranarray(P)
    return P


@case('P24', weight=3)
def cross_metrics(t):
    X, d = _data(t)
    Y, _ = _data(t, d=d)
    A, C = _df(t, X), _df(t, Y)
    if isinstance(A, torch.Tensor) != isinstance(C, torch.Tensor):
        A, C = to_time_series_dataset(X), to_time_series_dataset(Y)
    name = t.choice(['cdist_dtw', 'cdist_frechet', 'cdist_soft_dtw', 'cdist_soft_dtw_normalized', 'cdist_gak', 'cdist_ctw', 'sigma_gak', 'gamma_soft_dtw', 'ncc', 'sax'])
    t.inp(fun=name, X=A, Y=C)
    two = t.coin(.6)
    args = (A, C) if two else (A,)
    if name == 'ncc':
        E, F = t.values((3, 6, d), 'gauss'), t.values((2, 6, d), 'gauss')
        nr = np.linalg.norm(E, axis=(1, 2))
        nf = np.linalg.norm(F, axis=(1, 2))
        watch(t, M.cdist_normalized_cc, E, F, nr, nf, self_similarity=False)
        watch(t, M.y_shifted_sbd_vec, E[0].copy(), F, float(nr[0]), nf)
    elif name == 'sax':
        E = t.values((3, 6, d), 'gauss')
        m = SymbolicAggregateApproximation(n_segments=3, alphabet_size_avg=4).fit(E)
        S = m.transform(E)
        watch(t, M.cdist_sax, S, m.breakpoints_avg_, 6)
    elif name in ('sigma_gak', 'gamma_soft_dtw'):
        watch(t, getattr(M, name), A, n_samples=10, random_state=t.integers(0, 5))
    elif name == 'cdist_ctw':
        P = [x[:, :1].copy() for x in X]
        watch(t, M.cdist_ctw, P, max_iter=2, n_components=1)
    else:
        kw = dict(sigma=2.) if name == 'cdist_gak' else dict(gamma=.5) if 'soft' in name else dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=2)
        watch(t, getattr(M, name), *args, **kw)


@case('P24', weight=3)
def barycenters(t):
    X, d = _data(t)
    A = t.choice([to_time_series_dataset(X), [x.copy() for x in X]])
    w = t.choice([None, np.abs(t.values((len(X),), 'gauss')) + .1])
    mp = t.choice([None, dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=3), {}])
    init = t.choice([None, t.values((t.integers(3, 6), d), 'gauss')])
    name = t.choice(['euclidean_barycenter', 'dtw_barycenter_averaging', 'dtw_barycenter_averaging_subgradient', 'dtw_barycenter_averaging_petitjean', 'softdtw_barycenter'])
    t.inp(fun=name, X=A, weights=w, metric_params=mp, init=init)
    f = getattr(B, name)
    if name == 'euclidean_barycenter':
        E = t.values((3, 5, d), 'gauss')
        watch(t, f, E, weights=t.choice([None, np.array([1., 2., 3.])]))
    elif name == 'softdtw_barycenter':
        watch(t, f, A, gamma=.7, weights=w, max_iter=4, init=init, **(mp or {}))
    else:
        kw = dict(init_barycenter=init, max_iter=4, weights=w)
        if name != 'dtw_barycenter_averaging_petitjean':
            kw['metric_params'] = mp
        if name == 'dtw_barycenter_averaging_subgradient':
            kw['random_state'] = t.integers(0, 5)
        if name == 'dtw_barycenter_averaging' and t.coin(.3):
            kw['n_init'] = 2
            kw['init_barycenter'] = None
            watch(t, f, A, _repeat=False, **kw)
            return
        watch(t, f, A, _repeat=init is not None or name == 'dtw_barycenter_averaging_subgradient', **kw)


@case('P24', weight=3)
def transformers(t):
    X, d = _data(t, eq=True, lo=6)
    ragged = [x[:t.integers(3, len(x))] for x in X]
    k = t.choice(['minmax', 'meanvar', 'resample', 'impute', 'sync', 'paa', 'sax', '1dsax', 'mp'])
    A = to_time_series_dataset(X if k in ('paa', 'sax', '1dsax', 'mp', 'sync') else ragged)
    t.inp(cls=k, X=A)
    if k == 'minmax':
        m = TimeSeriesScalerMinMax(value_range=(-1., 1.), per_timeseries=t.coin(), per_feature=t.coin())
    elif k == 'meanvar':
        m = TimeSeriesScalerMeanVariance(mu=.5, std=2., per_timeseries=t.coin(), per_feature=t.coin())
    elif k == 'resample':
        m = TimeSeriesResampler(sz=t.integers(2, 9))
    elif k == 'impute':
        A = to_time_series_dataset(X)
        A[t.rng.random(A.shape) < .3] = np.nan
        m = TimeSeriesImputer(method=t.choice(['mean', 'median', 'ffill', 'bfill', 'linear', 'constant']), value=1., keep_trailing_nans=t.coin())
    elif k == 'sync':
        m = TimeSeriesFeatureSynchronizer()
    elif k == 'paa':
        m = PiecewiseAggregateApproximation(n_segments=3)
    elif k == 'sax':
        m = SymbolicAggregateApproximation(n_segments=3, alphabet_size_avg=3, scale=t.coin())
    elif k == '1dsax':
        m = OneD_SymbolicAggregateApproximation(n_segments=3, alphabet_size_avg=3, alphabet_size_slope=3, scale=t.coin())
    else:
        A = A[:, :, :1].copy()
        m = MatrixProfile(subsequence_length=3, implementation=t.choice(['numpy', 'stump']), scale=t.coin())
    if t.coin(.3):
        A = A.tolist()
    p = snap(m.get_params())
    watch(t, m.fit, A, _repeat=False)
    if k == 'sync' and t.coin():
        n, s, dd = np.shape(A)
        ts = np.datetime64('2020-01-01') + np.cumsum(t.rng.integers(1, 5, size=(n, s, dd)), axis=1).astype('timedelta64[D]')
        watch(t, m.transform, A, timestamps=ts)
    Z = watch(t, m.transform, A)
    watch(t, m.fit_transform, A)
    if hasattr(m, 'inverse_transform'):
        watch(t, m.inverse_transform, Z)
        for f in ('distance_paa', 'distance_sax', 'distance_1d_sax'):
            if hasattr(m, f) and not (f == 'distance_sax' and k == '1dsax'):
                watch(t, getattr(m, f), Z[0], Z[1])
        watch(t, m.distance, np.asarray(A)[0], np.asarray(A)[1])
    t.same(snap(m.get_params()), p, f'{k}: parameters changed')


@case('P24', weight=3)
def estimators(t):
    X, d = _data(t, n=t.integers(6, 9), lo=5)
    eq = np.array([x[:5] for x in X])
    P = to_time_series_dataset(X)
    y = np.array([i % 2 for i in range(len(X))])
    k = t.choice(['kmeans', 'kmeans', 'kernel', 'kshape', 'dbscan', 'knn', 'knc', 'knr', 'svc', 'svr', 'varima', 'early', 'silhouette', 'kmeans_init'])
    A = eq
    rs = t.integers(0, 9)
    mp = t.choice([None, dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=3), dict(sakoe_chiba_radius=2, n_jobs=1)])
    calls = ['predict']
    if k.startswith('kmeans'):
        metric = t.choice(['euclidean', 'dtw', 'softdtw'])
        A = eq if metric == 'euclidean' else P
        mp = mp if metric == 'dtw' else dict(gamma=.4) if metric == 'softdtw' else None
        m = TimeSeriesKMeans(n_clusters=2, metric=metric, max_iter=2, max_iter_barycenter=3, metric_params=mp, random_state=rs,
                             init=A[:2].copy() if k == 'kmeans_init' else 'k-means++')
        calls.append('transform')
    elif k == 'kernel':
        m = KernelKMeans(n_clusters=2, kernel=t.choice(['gak', 'rbf']), max_iter=2, random_state=rs, kernel_params=None)
        if m.kernel == 'gak' and t.coin():
            m.set_params(kernel_params=dict(sigma=t.choice([2., 'auto'])))
    elif k == 'kshape':
        m = KShape(n_clusters=2, max_iter=2, random_state=rs, init=eq[:2].copy() if t.coin() else 'random')
    elif k == 'dbscan':
        m, calls = TimeSeriesDBSCAN(eps=t.choice([1., 4.]), min_ts=2, metric=t.choice(['dtw', 'euclidean']), metric_params=None), []
    elif k in ('knn', 'knc', 'knr'):
        metric = t.choice(['dtw', 'softdtw', 'euclidean', 'frechet', 'sax'])
        A = P if metric in ('dtw', 'softdtw', 'frechet') else eq
        mp = mp if metric in ('dtw',) else dict(gamma_sdtw=.4) if metric == 'softdtw' else dict(n_segments=2, alphabet_size_avg=4) if metric == 'sax' else None
        C = dict(knn=KNeighborsTimeSeries, knc=KNeighborsTimeSeriesClassifier, knr=KNeighborsTimeSeriesRegressor)[k]
        m = C(n_neighbors=2, metric=metric, metric_params=mp)
        calls = ['kneighbors'] + ([] if k == 'knn' else ['predict'])
    elif k in ('svc', 'svr'):
        C = TimeSeriesSVC if k == 'svc' else TimeSeriesSVR
        m = C(kernel=t.choice(['gak', 'rbf']), gamma=t.choice(['auto', 1.]), random_state=rs)
    elif k == 'varima':
        A = np.array([t.values((12, d), 'gauss') for _ in range(3)])
        if t.coin():
            A = to_time_series_dataset([x[:t.integers(8, 12)] for x in A])
        m = VARIMA(p=t.integers(0, 2), d=t.integers(0, 1), q=t.integers(0, 1), seasonal_period=t.choice([None, 2]), max_iter=5)
    elif k == 'early':
        A = np.concatenate([eq, eq + .1])
        y = np.concatenate([y, y])
        m = NonMyopicEarlyClassifier(n_clusters=2, min_t=2, lamb=10., random_state=rs, base_classifier=KNeighborsTimeSeriesClassifier(n_neighbors=1, metric='euclidean') if t.coin() else None)
        calls = ['predict', 'predict_proba', 'predict_class_and_earliness']
    else:
        t.inp(cls=k, X=P, metric_params=mp)
        watch(t, silhouette_score, P, y, metric='dtw', metric_params=mp)
        return
    t.inp(cls=k, X=A, y=y, params=m.get_params())
    ya = t.choice([y, y.tolist()])
    sup = k in ('knc', 'knr', 'svc', 'svr', 'early')
    p0 = snap(m.get_params(deep=False))
    r = watch(t, m.fit, A, *([ya] if sup else []), _repeat=False)
    t.same(snap(m.get_params(deep=False)), p0, f'{k}: fit changed the constructor parameters')
    if r is None:
        raise Skip
    st = snap({a: v for a, v in vars(m).items() if isinstance(v, np.ndarray)})
    for c in calls:
        watch(t, getattr(m, c), A)
    if k == 'varima':
        watch(t, m.predict, A, n=3)
        watch(t, m.predict, n=2)
    t.same(snap(m.get_params(deep=False)), p0, f'{k}: {calls} changed the constructor parameters')
    t.ok(snap({a: v for a, v in vars(m).items() if isinstance(v, np.ndarray)}) == st, f'{k}: {calls} changed the fitted arrays')
    if k != 'early':
        keys = [a for a in ('labels_', 'cluster_centers_', 'inertia_', 'ar_coeffs_', 'intercept_') if hasattr(m, a)]
        old = {a: copy.deepcopy(getattr(m, a)) for a in keys}
        m.fit(A, *([ya] if sup else []))
        for a in keys:
            t.ok(same(old[a], getattr(m, a)), f'{k}: a second fit gives {a} = {describe(getattr(m, a), 300)}, first {describe(old[a], 300)}')


@case('P24', weight=2)
def utilities(t):
    X, d = _data(t)
    A = _df(t, X)
    if isinstance(A, torch.Tensor):
        A = to_time_series_dataset(X)
    t.inp(X=A)
    watch(t, U.to_time_series_dataset, A)
    watch(t, U.to_sklearn_dataset, A)
    watch(t, U.check_equal_size, A)
    watch(t, U.check_dataset, A, force_equal_length=False)
    P = to_time_series_dataset(X)
    watch(t, U.check_dims, P)
    watch(t, U.ts_size, P[0])
    watch(t, U.to_time_series, P[0], remove_nans=True)
    watch(t, U.time_series_to_str, P[0])
    dd = tempfile.mkdtemp(prefix='p24_')
    try:
        watch(t, U.save_time_series_txt, os.path.join(dd, 'a.txt'), A)
    finally:
        shutil.rmtree(dd, ignore_errors=True)
    watch(t, U.to_stumpy_dataset, P)
    L = U.to_stumpy_dataset(P)
    watch(t, U.from_stumpy_dataset, L)
    Q = U.to_sktime_dataset(P) if _has('sktime') else None
    if _has('cesium'):
        from cesium.time_series import TimeSeries
        watch(t, U.to_cesium_dataset, P, _repeat=False)
        perm = t.rng.permutation(5)
        C = [TimeSeries(t=perm.astype(float), m=t.values((5,), 'gauss')) for _ in range(2)]
        watch(t, U.from_cesium_dataset, C)


def _has(m):
    import importlib.util
    return importlib.util.find_spec(m) is not None
