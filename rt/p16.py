from .common import *
from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
from tslearn.utils import to_time_series_dataset
from tslearn.piecewise import SymbolicAggregateApproximation

SAXP = dict(n_segments=3, alphabet_size_avg=5)


def _conf(t):
    metric = t.choice(['dtw', 'dtw', 'dtw', 'euclidean', 'sqeuclidean', 'cityblock', 'softdtw', 'frechet', 'sax'])
    mp = None
    if metric in ('dtw', 'frechet') and t.coin(.4):
        mp = t.choice([dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(1, 3)), dict(sakoe_chiba_radius=2), dict(n_jobs=1)])
    if metric == 'softdtw' and t.coin(.6):
        mp = t.choice([dict(gamma=.5), dict(gamma_sdtw=.1)])
    if metric == 'sax':
        mp = dict(SAXP, scale=t.coin())
    return metric, mp


def _data(t, metric, n, d, sz=None):
    if metric in ('euclidean', 'sqeuclidean', 'cityblock', 'sax'):
        sz = sz or t.integers(6, 9)
        return [t.values((sz, d), t.choice(['int', 'gauss'])) for _ in range(n)], sz
    return [t.values((t.integers(2, 6), d), t.choice(['int', 'gauss', 'gauss'])) for _ in range(n)], None


def _dist(x, z, metric, mp):
    p = {k: v for k, v in (mp or {}).items() if k != 'n_jobs'}
    if metric == 'dtw':
        return O.dtw(x, z, omask(len(x), len(z), p))
    if metric == 'frechet':
        return O.frechet(x, z, omask(len(x), len(z), p))
    if metric == 'softdtw':
        return O.softdtw(O.cost_matrix(x, z), p.get('gamma', p.get('gamma_sdtw', 1.)))
    if metric == 'cityblock':
        return float(np.abs(x - z).sum())
    s = float(((x - z) ** 2).sum())
    return s if metric == 'sqeuclidean' else math.sqrt(s)


def _matrix(X, Q, metric, mp):
    if metric == 'sax':
        m = SymbolicAggregateApproximation(**mp).fit(to_time_series_dataset(X))
        a, b = m.transform(to_time_series_dataset(Q)), m.transform(to_time_series_dataset(X))
        return np.array([[m.distance_sax(p, q) for q in b] for p in a])
    return np.array([[_dist(np.asarray(q), np.asarray(x), metric, mp) for x in X] for q in Q])


def _check(t, ind, dist, D, k, msg, excl=False):
    nq, n = D.shape
    kk = min(k, n - 1 if excl else n)
    t.same(tuple(ind.shape), (nq, kk), msg + ': shape')
    for i in range(nq):
        row = [int(v) for v in ind[i]]
        t.ok(len(set(row)) == kk and all(0 <= v < n for v in row), f'{msg}: neighbours of query {i} are {row}')
        t.ok(not (excl and i in row), f'{msg}: series {i} is among its own neighbours {row}')
        cand = sorted(D[i, j] for j in range(n) if not (excl and j == i))[:kk]
        t.close(D[i, row], cand, f'{msg}: distances of the neighbours {row} of query {i}', rtol=1e-6, atol=1e-6)
        if dist is not None:
            t.close(dist[i], cand, f'{msg}: reported distances of query {i}', rtol=1e-6, atol=1e-6)


def _snap(m):
    return {k: v for k, v in m.get_params().items()}


@case('P16', weight=3)
def kneighbors(t):
    metric, mp = _conf(t)
    d = t.choice([1, 1, 2])
    n = t.integers(2, 8)
    X, sz = _data(t, metric, n, d)
    Q, _ = _data(t, metric, t.integers(1, 4), d, sz)
    k = t.integers(1, n + 1)
    k0 = t.integers(1, n)
    C = t.choice([KNeighborsTimeSeries, KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor])
    A, B = to_time_series_dataset(X), to_time_series_dataset(Q)
    t.inp(cls=C.__name__, metric=metric, metric_params=mp, X=A, Q=B, n_neighbors=k, ctor=k0)
    a, b = A.copy(), B.copy()
    mp0 = dict(mp) if mp else mp
    m = C(n_neighbors=k0, metric=metric, metric_params=mp)
    if t.coin(.3):          # history: previous fit with another metric or other data
        other = t.choice(['dtw', 'euclidean', 'sax'])
        m.set_params(metric=other, metric_params=dict(n_segments=2) if other == 'sax' else None)
        m.fit(to_time_series_dataset([t.values((5, d), 'gauss') for _ in range(4)]), [0, 1, 0, 1])
        m.set_params(metric=metric, metric_params=mp)
    m.fit(A, [0, 1] * (n // 2) + [0] * (n % 2))
    t.same(m.metric, metric, 'metric after fit')
    D = _matrix(X, Q, metric, mp)
    direct = C is KNeighborsTimeSeries or metric not in ('euclidean', 'sqeuclidean', 'cityblock') or True
    dist, ind = m.kneighbors(B, n_neighbors=k)
    _check(t, ind, dist, D, k, 'kneighbors')
    ind2 = m.kneighbors(B, return_distance=False)
    _check(t, ind2, None, D, k0, 'kneighbors without distances')
    if n > 1:
        _check(t, *m.kneighbors(None, n_neighbors=k)[::-1], _matrix(X, X, metric, mp) if metric != 'sax' else _matrix(X, X, metric, mp), k, 'kneighbors of the training set', excl=True)
    t.same(m.metric, metric, 'metric after kneighbors')
    t.same(mp, mp0, 'metric_params changed')
    t.ok(np.array_equal(A, a, equal_nan=True) and np.array_equal(B, b, equal_nan=True), 'inputs were modified')


def _weights(w, ds):
    if w == 'uniform':
        return [1.] * len(ds)
    if any(x == 0 for x in ds):
        return [1. if x == 0 else 0. for x in ds]
    return [1. / x for x in ds]


@case('P16', weight=3)
def vote(t):
    metric, mp = _conf(t)
    d = t.choice([1, 1, 2])
    n = t.integers(3, 8)
    X, sz = _data(t, metric, n, d)
    Q, _ = _data(t, metric, t.integers(1, 4), d, sz)
    if t.coin(.3):
        Q[0] = X[t.integers(0, n - 1)].copy()
    k = t.integers(1, min(n, 4))
    w = t.choice(['uniform', 'distance']) if metric != 'softdtw' else 'uniform'
    A, B = to_time_series_dataset(X), to_time_series_dataset(Q)
    D = _matrix(X, Q, metric, mp)
    lab = t.choice([[0, 1, 2], ['a', 'b', 'c'], [5, -1, 3]])
    y = [lab[t.integers(0, 2)] for _ in range(n)]
    if len(set(y)) < 2:
        y[0], y[1] = lab[0], lab[1]
    z = t.values((n,), 'gauss') if t.coin(.7) else t.values((n, 2), 'gauss')
    t.inp(metric=metric, metric_params=mp, X=A, Q=B, n_neighbors=k, weights=w, y=y, z=z)
    keep = []
    for i in range(len(Q)):
        s = np.sort(D[i])
        if k == n or s[k] - s[k - 1] > 1e-6:       # the set of neighbours is determined
            if w == 'uniform' or all(v == 0 or v > 1e-3 for v in D[i]):
                keep.append(i)
    if not keep:
        raise Skip
    c = KNeighborsTimeSeriesClassifier(n_neighbors=k, weights=w, metric=metric, metric_params=mp).fit(A, y)
    r = KNeighborsTimeSeriesRegressor(n_neighbors=k, weights=w, metric=metric, metric_params=mp).fit(A, z)
    P, L, V = c.predict_proba(B), c.predict(B), r.predict(B)
    t.same(L.shape, (len(Q),), 'shape of predict')
    t.same(V.shape, (len(Q),) + z.shape[1:], 'shape of regression')
    classes = sorted(set(y))
    t.same(list(c.classes_), classes, 'classes_')
    for i in keep:
        nb = sorted(range(n), key=lambda j: D[i, j])[:k]
        ws = _weights(w, [D[i, j] for j in nb])
        tot = sum(ws)
        pr = [sum(v for v, j in zip(ws, nb) if y[j] == q) / tot for q in classes]
        t.close(P[i], pr, f'class probabilities of query {i}', rtol=1e-5, atol=1e-6)
        t.ok(pr[classes.index(L[i])] >= max(pr) - 1e-6, f'predicted class {L[i]} of query {i}, votes {dict(zip(classes, pr))}')
        t.close(V[i], sum(v * z[j] for v, j in zip(ws, nb)) / tot, f'regression value of query {i}', rtol=1e-5, atol=1e-6)
    t.same((c.metric, r.metric), (metric, metric), 'metric after predict')


@case('P16')
def errors_keep_state(t):
    X = [t.values((4, 2), 'gauss') for _ in range(4)]
    metric = t.choice(['dtw', 'softdtw', 'frechet'])
    C = t.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier])
    t.inp(X=X, metric=metric, cls=C.__name__)
    m = C(n_neighbors=2, metric=metric).fit(to_time_series_dataset(X), [0, 1, 1, 0])
    try:
        m.kneighbors(np.zeros((2, 3, 3)))      # wrong number of features
    except Exception:
        pass
    try:
        m.predict(np.zeros((2, 3, 5)))
    except Exception:
        pass
    t.same(m.metric, metric, 'metric after a rejected query')
    D = _matrix(X, X, metric, None)
    dist, ind = m.kneighbors(to_time_series_dataset(X), n_neighbors=3)
    _check(t, ind, dist, D, 3, 'kneighbors after a rejected query')


@case('P16', maxrounds=6)
def many_neighbours(t):
    """large training sets and many neighbours (other search strategies)"""
    metric = t.choice(['euclidean', 'sqeuclidean', 'cityblock', 'dtw']) if t.rnd else 'euclidean'
    n, sz = (t.integers(900, 2500), 3) if metric != 'dtw' else (t.integers(60, 120), 2)
    X = [t.values((sz, 1), 'gauss') for _ in range(n)]
    Q = [t.values((sz, 1), 'gauss') for _ in range(2)]
    k = t.integers(n // 8, n // 4)
    A, B = np.array(X), np.array(Q)
    t.inp(metric=metric, X=A, Q=B, n_neighbors=k)
    D = np.array([[_dist(q, x, metric, None) for x in X] for q in Q])
    C = t.choice([KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier])
    m = C(n_neighbors=k, metric=metric).fit(A, [0, 1] * (n // 2) + [0] * (n % 2))
    dist, ind = m.kneighbors(B)
    _check(t, ind, dist, D, k, 'kneighbors')
    _check(t, m.kneighbors(B, return_distance=False), None, D, k, 'kneighbors without distances')
