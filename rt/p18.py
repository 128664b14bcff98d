import copy
import os
import pickle
import shutil
import tempfile
from .common import *
from tslearn.utils import to_time_series_dataset
from tslearn.clustering import KShape, TimeSeriesKMeans, KernelKMeans, TimeSeriesDBSCAN
from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
from tslearn.piecewise import PiecewiseAggregateApproximation, SymbolicAggregateApproximation, OneD_SymbolicAggregateApproximation
from tslearn.matrix_profile import MatrixProfile
from tslearn.preprocessing import TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax
from tslearn.forecasting import VARIMA, AutoVARIMA


def eq(a, b):
    """deep equality up to container kinds json cannot distinguish"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(map(str, a)) == set(map(str, b)) and all(eq(a[k], b[k] if k in b else b[str(k)]) for k in a)
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    if isinstance(a, (list, tuple)) and any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    x, y = np.asarray(a), np.asarray(b)
    if x.size == 0 and y.size == 0:
        return True
    if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
        return x.shape == y.shape and all(eq(p, q) if isinstance(p, np.ndarray) else p == q for p, q in zip(x.ravel(), y.ravel()))
    return x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True)


def state(m):
    p = {k: copy.deepcopy(v) for k, v in m.get_params(deep=False).items()}
    f = {k: copy.deepcopy(v) for k, v in m._get_model_params().items()}
    return p, f


def outputs(m, Q):
    r = {}
    for f in ('predict', 'transform', 'predict_proba', 'kneighbors'):
        if hasattr(m, f) and not (f == 'predict' and isinstance(m, KNeighborsTimeSeries) and not hasattr(m, 'classes_')):
            r[f] = getattr(m, f)(Q.copy())
    if hasattr(m, 'inverse_transform') and 'transform' in r:
        r['inverse'] = m.inverse_transform(r['transform'])
    if hasattr(m, 'distance_sax') and not hasattr(m, 'distance_1d_sax'):
        r['distance_sax'] = m.distance_sax(r['transform'][0], r['transform'][-1])
    elif hasattr(m, 'distance_1d_sax'):
        r['distance'] = m.distance_1d_sax(r['transform'][0], r['transform'][-1])
    elif hasattr(m, 'distance_paa'):
        r['distance'] = m.distance_paa(r['transform'][0], r['transform'][-1])
    return r


def _roundtrip(t, m, Q, formats=('json', 'hdf5', 'pickle')):
    out = outputs(m, Q)
    p0, f0 = state(m)
    d = tempfile.mkdtemp(prefix='p18_')
    try:
        fmt = t.choice(list(formats))
        path = os.path.join(d, 'model.' + fmt)
        getattr(m, 'to_' + fmt)(path)
        p1, f1 = state(m)
        for n, a, b in (('parameter', p0, p1), ('fitted attribute', f0, f1)):
            t.same(sorted(a), sorted(b), f'{fmt}: set of {n}s after saving')
            for k in a:
                t.ok(eq(a[k], b[k]), f'{fmt}: saving changed {n} {k}: {a[k]!r} -> {b[k]!r}')
                t.ok(type(a[k]) is type(b[k]), f'{fmt}: saving changed the type of {n} {k}: {type(a[k])} -> {type(b[k])}')
        r = getattr(type(m), 'from_' + fmt)(path)
        p2, f2 = state(r)
        for n, a, b in (('parameter', p0, p2), ('fitted attribute', f0, f2)):
            for k in a:
                t.ok(k in b, f'{fmt}: {n} {k} is missing after loading')
                t.ok(eq(a[k], b[k]), f'{fmt}: {n} {k} is {b[k]!r} after loading, {a[k]!r} before')
        o2 = outputs(r, Q)
        t.same(sorted(o2), sorted(out), f'{fmt}: methods')
        for k in out:
            t.ok(all(np.allclose(np.asarray(x, dtype=float), np.asarray(y, dtype=float), rtol=1e-9, atol=1e-9, equal_nan=True) if np.asarray(x).dtype.kind not in 'OUS' else np.array_equal(x, y)
                     for x, y in (zip(out[k], o2[k]) if isinstance(out[k], tuple) else [(out[k], o2[k])])),
                 f'{fmt}: {k} after loading gives {describe(o2[k], 300)}, before {describe(out[k], 300)}')
        for k, v in outputs(m, Q).items():
            t.ok(all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == 'f') for x, y in (zip(out[k], v) if isinstance(v, tuple) else [(out[k], v)])),
                 f'{fmt}: {k} of the original changed after saving')
        # a second generation
        path2 = os.path.join(d, 'again.' + fmt)
        getattr(r, 'to_' + fmt)(path2)
        r2 = getattr(type(m), 'from_' + fmt)(path2)
        p3, f3 = state(r2)
        for n, a, b in (('parameter', p0, p3), ('fitted attribute', f0, f3)):
            for k in a:
                t.ok(k in b and eq(a[k], b[k]), f'{fmt}: {n} {k} is {b.get(k)!r} after two round trips, {a[k]!r} before')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _eqdata(t, n=None, sz=None, d=None):
    n, sz, d = n or t.integers(4, 8), sz or t.integers(6, 10), d or t.choice([1, 1, 2])
    return np.array([t.values((sz, d), t.choice(['gauss', 'walk'])) for _ in range(n)])


def _vardata(t, d=None):
    d = d or t.choice([1, 2])
    return to_time_series_dataset([t.values((t.integers(3, 8), d), 'gauss') for _ in range(t.integers(4, 8))])


@case('P18', weight=3)
def piecewise(t):
    X = _eqdata(t)
    k = t.choice(['paa', 'sax', '1dsax'])
    n = t.integers(1, X.shape[1] // 2)
    kw = dict(n_segments=n)
    if k != 'paa':
        kw.update(alphabet_size_avg=t.integers(2, 6), scale=t.coin())
    if k == '1dsax':
        kw.update(alphabet_size_slope=t.integers(2, 5), sigma_l=t.choice([None, .3]))
    C = dict(paa=PiecewiseAggregateApproximation, sax=SymbolicAggregateApproximation)
    C['1dsax'] = OneD_SymbolicAggregateApproximation
    t.inp(cls=C[k].__name__, X=X, **kw)
    _roundtrip(t, C[k](**kw).fit(X), X[:3])


@case('P18', weight=3)
def neighbours(t):
    metric = t.choice(['dtw', 'softdtw', 'euclidean', 'frechet', 'sqeuclidean', 'sax'])
    X = _vardata(t) if metric in ('dtw', 'softdtw', 'frechet') and t.coin() else _eqdata(t)
    mp = None
    if metric == 'dtw' and t.coin():
        mp = t.choice([dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=2), dict(itakura_max_slope=3.)])
    if metric == 'softdtw' and t.coin():
        mp = dict(gamma=.5)
    if metric == 'sax':
        mp = dict(n_segments=3, alphabet_size_avg=4)
    C = t.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor])
    y = None
    if C is KNeighborsTimeSeriesClassifier:
        y = t.choice([[0, 1], ['a', 'bb'], [3, -1]])
        y = np.array([y[i % 2] for i in range(len(X))])
    elif C is KNeighborsTimeSeriesRegressor:
        y = t.values((len(X),), 'gauss')
    kw = dict(n_neighbors=t.integers(1, 3), metric=metric, metric_params=mp)
    if C is not KNeighborsTimeSeries and metric != 'softdtw':
        kw['weights'] = t.choice(['uniform', 'distance'])
    t.inp(cls=C.__name__, X=X, y=y, **kw)
    m = C(**kw).fit(X) if y is None else C(**kw).fit(X, y)
    _roundtrip(t, m, X[:3])


@case('P18', weight=3)
def clustering(t):
    k = t.choice(['kmeans', 'kmeans', 'kernel', 'kshape', 'dbscan'])
    if k == 'kmeans':
        metric = t.choice(['euclidean', 'dtw', 'softdtw'])
        X = _vardata(t) if metric != 'euclidean' and t.coin() else _eqdata(t)
        kw = dict(n_clusters=t.integers(1, 3), metric=metric, max_iter=t.integers(1, 5), n_init=t.integers(1, 2), random_state=t.integers(0, 9),
                  max_iter_barycenter=3, metric_params=t.choice([None, dict(gamma=.1)]) if metric == 'softdtw' else
                  t.choice([None, dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=3)]) if metric == 'dtw' else None,
                  init=t.choice(['k-means++', 'random']))
        if t.coin(.2):
            kw['init'] = X[:kw['n_clusters']].copy()
        m = TimeSeriesKMeans(**kw)
    elif k == 'kernel':
        X = _eqdata(t)
        kw = dict(n_clusters=t.integers(1, 3), kernel=t.choice(['gak', 'rbf']), max_iter=3, random_state=t.integers(0, 9))
        kw['kernel_params'] = None if kw['kernel'] == 'rbf' else t.choice([None, dict(sigma=2.), dict(sigma='auto')])
        m = KernelKMeans(**kw)
    elif k == 'kshape':
        X = TimeSeriesScalerMeanVariance().fit_transform(_eqdata(t, d=1))
        kw = dict(n_clusters=t.integers(1, 3), max_iter=3, random_state=t.integers(0, 9))
        m = KShape(**kw)
    else:
        X = _eqdata(t)
        kw = dict(eps=t.choice([.5, 2., 50.]), min_ts=t.integers(1, 3), metric=t.choice(['dtw', 'frechet', 'euclidean']))
        m = TimeSeriesDBSCAN(**kw)
    t.inp(cls=type(m).__name__, X=X, **kw)
    try:
        m.fit(X)
    except Exception as e:
        if 'Empty' in type(e).__name__:
            raise Skip
        raise
    if not m._is_fitted():
        raise Skip
    _roundtrip(t, m, X[:3])


@case('P18')
def others(t):
    k = t.choice(['mp', 'minmax', 'meanvar', 'varima'])
    X = _eqdata(t, sz=12)
    if k == 'mp':
        kw = dict(subsequence_length=t.integers(3, 5), implementation=t.choice(['numpy', 'stump']), scale=t.coin())
        X = X[:, :, :1]
        m = MatrixProfile(**kw)
    elif k in ('minmax', 'meanvar'):
        C, kw = (TimeSeriesScalerMinMax, dict(value_range=(0., 2.))) if k == 'minmax' else (TimeSeriesScalerMeanVariance, dict(mu=1., std=2.))
        kw.update(per_timeseries=t.coin(), per_feature=t.coin())
        m = C(**kw)
        if not hasattr(m, 'to_json'):
            raise Skip
    else:
        X = _eqdata(t, sz=30, n=2)
        kw = dict(p=t.integers(0, 2), d=t.integers(0, 1), q=t.integers(0, 1), seasonal_period=t.choice([None, 3]), max_iter=5)
        m = VARIMA(**kw)
    t.inp(cls=type(m).__name__, X=X, **kw)
    m.fit(X)
    _roundtrip(t, m, X[:3])


@case('P18', maxrounds=1)
def auto_varima(t):
    X = _eqdata(t, sz=30, n=2, d=1)
    t.inp(X=X)
    m = AutoVARIMA(max_p=1, max_d=1, max_q=1, max_iter=5).fit(X)
    d = tempfile.mkdtemp(prefix='p18_')
    try:
        m.to_json(os.path.join(d, 'm.json'))
    except Exception as e:
        if 'Model must be fit' in str(e):
            raise Fail(f'a fitted AutoVARIMA cannot be saved: {e}', key='autovarima_not_packaged')
        raise
    finally:
        shutil.rmtree(d, ignore_errors=True)


@case('P18', maxrounds=4)
def shapelets(t):
    from tslearn.shapelets import LearningShapelets
    X = _eqdata(t, sz=8)
    y = [[0, 1, 2][i % t.choice([2, 3])] for i in range(len(X))]
    y[:2] = [0, 1]
    kw = dict(n_shapelets_per_size=t.choice([None, {2: 2, 3: 1}]), max_iter=1, scale=t.coin(), random_state=t.integers(0, 9),
              optimizer=t.choice(['sgd', 'adam']), weight_regularizer=t.choice([0., .01]))
    t.inp(X=X, y=y, **kw)
    m = LearningShapelets(**kw).fit(X, y)
    fmt = t.choice(['json', 'pickle'])
    d = tempfile.mkdtemp(prefix='p18_')
    try:
        p0 = copy.deepcopy(m.get_params())
        out = dict(predict=m.predict(X), proba=m.predict_proba(X), transform=m.transform(X), locate=m.locate(X))
        path = os.path.join(d, 'm.' + fmt)
        getattr(m, 'to_' + fmt)(path)
        t.ok(eq(p0, m.get_params()), f'{fmt}: saving changed the parameters')
        r = getattr(LearningShapelets, 'from_' + fmt)(path)
        for k, v in p0.items():
            t.ok(eq(v, r.get_params()[k]), f'{fmt}: parameter {k} is {r.get_params()[k]!r} after loading, {v!r} before')
        o2 = dict(predict=r.predict(X), proba=r.predict_proba(X), transform=r.transform(X), locate=r.locate(X))
        for k in out:
            t.close(o2[k], out[k], f'{fmt}: {k} after loading', rtol=1e-4, atol=1e-5)
        for a, b in zip(m.shapelets_, r.shapelets_):
            t.close(b, a, f'{fmt}: shapelets after loading', rtol=1e-6)
    finally:
        shutil.rmtree(d, ignore_errors=True)
