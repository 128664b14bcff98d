from .common import *
from tslearn.clustering import TimeSeriesKMeans, KernelKMeans, KShape, silhouette_score
from tslearn.utils import to_time_series_dataset
import tslearn.clustering as C


def _data(t, n=None, equal=False, d=None, lo=2, hi=6, scale=4.):
    n = n or t.integers(4, 9)
    d = d or t.choice([1, 1, 2])
    sz = t.integers(max(lo, 3), hi)
    X = []
    for i in range(n):
        x = t.values((sz if equal else t.integers(lo, hi), d), 'gauss') + scale * t.integers(0, 2)
        X.append(x)
    return X, d


def _cdist(X, Z, metric, p):
    R = np.zeros((len(X), len(Z)))
    for i, x in enumerate(X):
        for j, z in enumerate(Z):
            if metric == 'euclidean':
                R[i, j] = math.sqrt(O.sq(x.ravel(), z.ravel()))
            elif metric == 'softdtw':
                R[i, j] = O.softdtw(O.cost_matrix(x, z), p.get('gamma', 1.))
            else:
                R[i, j] = O.dtw(x, z, omask(len(x), len(z), p))
    return R


def _nearest(t, labels, D, msg, tol=1e-7):
    for i, l in enumerate(labels):
        t.ok(0 <= l < D.shape[1] and int(l) == l, f'{msg}: label {l} is not a cluster index')
        t.ok(D[i, l] <= D[i].min() + tol * (1 + abs(D[i].min())), f'{msg}: series {i} has label {l} but distances {D[i].tolist()}')


@case('P15', weight=2)
def kmeans(t):
    metric = t.choice(['euclidean', 'dtw', 'dtw', 'softdtw'])
    X, d = _data(t, equal=metric == 'euclidean', hi=5)
    p = {}
    if metric == 'dtw' and t.coin(.4):
        p = t.choice([dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(1, 3)), dict(sakoe_chiba_radius=2)])
    if metric == 'softdtw':
        p = dict(gamma=t.choice([1., .1]))
    k = t.integers(1, 3)
    init = t.choice(['k-means++', 'random', 'array'])
    A = to_time_series_dataset(X)
    if init == 'array':
        init = np.array([t.values((A.shape[1], d), 'gauss') + 4. * q for q in range(k)])
    kw = dict(n_clusters=k, metric=metric, metric_params=p or None, max_iter=t.choice([1, 2, 5, 20]), n_init=t.choice([1, 1, 2]),
              max_iter_barycenter=t.choice([3, 10]), random_state=t.integers(0, 99), init=init, dtw_inertia=metric == 'euclidean' and t.coin(.2))
    t.inp(X=A, **kw)
    before = A.copy()
    Xs = [tonp(x) for x in X]
    m = TimeSeriesKMeans(**kw)
    try:
        m.fit(A)
    except C.utils.EmptyClusterError if hasattr(C, 'utils') else ():
        raise Skip
    if m._X_fit is None:
        raise Skip
    t.ok(np.array_equal(A, before, equal_nan=True), 'fit modified the data')
    t.same(m.labels_.shape, (len(X),), 'shape of labels_')
    t.same(m.cluster_centers_.shape[0], k, 'number of centers')
    D = _cdist(Xs, [tonp(z) for z in m.cluster_centers_], metric, p)
    _nearest(t, m.labels_, D, 'TimeSeriesKMeans')
    I = _cdist(Xs, m.cluster_centers_, 'dtw', {}) if kw['dtw_inertia'] else D
    t.close(m.inertia_, sum(I[i, l] ** 2 for i, l in enumerate(m.labels_)) / len(X), 'inertia_ of the reported labels and centers', rtol=1e-6, atol=1e-6)
    t.ok(np.array_equal(m.predict(A), m.labels_), 'predict(training data) differs from labels_')
    t.close(m.transform(A), D, 'transform', rtol=1e-6, atol=1e-6)
    r = m.predict(A[::-1])
    t.ok(np.array_equal(r, m.labels_[::-1]), 'the label of a series depends on the other series')
    m2 = TimeSeriesKMeans(**kw)
    t.ok(np.array_equal(m2.fit_predict(A), m.labels_), 'fit_predict with the same random_state differs')
    t.close(m2.cluster_centers_, m.cluster_centers_, 'centers with the same random_state', rtol=1e-7, atol=1e-7)
    if t.coin(.3):
        m3 = TimeSeriesKMeans(n_jobs=2, **kw).fit(A)
        t.ok(np.array_equal(m3.labels_, m.labels_), 'labels depend on n_jobs')
        t.close(m3.cluster_centers_, m.cluster_centers_, 'centers depend on n_jobs', rtol=1e-4, atol=1e-4)
    Y, _ = _data(t, n=3, equal=metric == 'euclidean', d=d, lo=2)
    if metric == 'euclidean':
        Y = [t.values(X[0].shape, 'gauss') * 3 for _ in range(3)]
    B = to_time_series_dataset(Y)
    _nearest(t, m.predict(B), _cdist(Y, m.cluster_centers_, metric, p), 'predict on new data')


@case('P15', weight=2)
def kernel_kmeans(t):
    kern = t.choice(['gak', 'gak', 'rbf', 'linear', 'cosine'])
    X, d = _data(t, equal=kern != 'gak', n=t.integers(5, 9), hi=5, scale=2.)
    k = t.integers(1, 3)
    A = to_time_series_dataset(X)
    sig = t.choice([1., 2., 5., 'auto'])
    kp = dict(sigma=sig) if kern == 'gak' and t.coin(.7) else None
    kw = dict(n_clusters=k, kernel=kern, kernel_params=None if kp is None else dict(kp), n_init=t.choice([1, 3]), random_state=t.integers(0, 99), max_iter=30)
    w = None if t.coin() else np.array([t.choice([.5, 1., 2.]) for _ in X])
    t.inp(X=A, sample_weight=w, **kw)
    m = KernelKMeans(**kw)
    m.fit(A, sample_weight=w)
    t.ok(m.kernel_params == kp, 'kernel_params modified')
    if m._X_fit is None:
        raise Skip
    if kern == 'gak':
        s = getattr(m, 'sigma_gak_', 1.)
        if sig != 'auto' or kp is None:
            t.close(s, kp['sigma'] if kp else 1., 'sigma in use')
        U = lambda a, b: O.gak_unnorm(a, b, s)
        S = [U(a, a) for a in X]
        if min(S) < 1e-250:
            raise Skip
        K = np.array([[U(a, b) / math.sqrt(S[i] * S[j]) for j, b in enumerate(X)] for i, a in enumerate(X)])
    else:
        F = A.reshape(len(X), -1)
        if kern == 'linear':
            K = F @ F.T
        elif kern == 'cosine':
            N = np.linalg.norm(F, axis=1)
            K = F @ F.T / np.outer(N, N)
        else:
            K = np.array([[math.exp(-O.sq(a, b) / F.shape[1]) for b in F] for a in F])
    ww = np.ones(len(X)) if w is None else w
    t.same(m.labels_.shape, (len(X),), 'shape of labels_')
    t.ok(set(m.labels_.tolist()) <= set(range(k)), 'labels_')
    if len(set(m.labels_.tolist())) < k:
        raise Skip
    D = np.array([[2 - 2 * sum(ww[q] * K[i, q] for q in range(len(X)) if m.labels_[q] == j) / sum(ww[q] for q in range(len(X)) if m.labels_[q] == j)
                   for j in range(k)] for i in range(len(X))])
    P = m.predict(A)
    _nearest(t, P, D, 'KernelKMeans.predict', tol=1e-6)
    if m.n_iter_ < 30 and np.min(np.partition(D, min(1, k - 1), axis=1)[:, min(1, k - 1)] - D.min(1)) > 1e-6 or k == 1:
        _nearest(t, m.labels_, D, 'KernelKMeans.labels_', tol=1e-6)
        t.ok(np.array_equal(P, m.labels_), 'predict(training data) differs from labels_')
        t.close(m.inertia_, D.min(1).sum(), 'inertia_', rtol=1e-5, atol=1e-5)
    m2 = KernelKMeans(**dict(kw, n_jobs=t.choice([None, 2])))
    t.ok(np.array_equal(m2.fit(A, sample_weight=w).labels_, m.labels_), 'labels differ with the same random_state')
    Q = A[t.rng.permutation(len(A))[:2]]
    t.ok(len(m.predict(Q)) == 2, 'predict on two series')


def _ncc(x, y):
    n = len(x)
    den = math.sqrt(float((x ** 2).sum() * (y ** 2).sum()))
    if den < 1e-9:
        return 0.
    return max(sum(float(np.dot(x[i], y[i - s])) for i in range(n) if 0 <= i - s < n) for s in range(-n + 1, n)) / den


@case('P15', weight=1)
def kshape(t):
    X, d = _data(t, equal=True, n=t.integers(5, 9), hi=7)
    A = np.array(X)
    A = (A - A.mean(1, keepdims=True))
    A = A / A.std(1, keepdims=True)
    k = t.integers(1, 3)
    kw = dict(n_clusters=k, n_init=t.choice([1, 2]), random_state=t.integers(0, 99), max_iter=t.choice([1, 3, 20]))
    if t.coin(.3):
        z = np.array([t.values(A.shape[1:], 'gauss') for _ in range(k)])
        z = z - z.mean(1, keepdims=True)
        kw['init'] = z / z.std(1, keepdims=True)
    t.inp(X=A, **kw)
    m = KShape(**kw)
    try:
        m.fit(A)
    except Exception as e:
        if type(e).__name__ == 'EmptyClusterError':
            raise Skip
        raise
    if m.cluster_centers_ is None or not np.isfinite(m.inertia_):
        raise Skip
    if len(set(m.labels_.tolist())) < k:
        raise Skip
    D = 1 - np.array([[_ncc(x, z) for z in m.cluster_centers_] for x in A])
    _nearest(t, m.labels_, D, 'KShape', tol=1e-6)
    t.close(m.inertia_, sum(D[i, l] ** 2 for i, l in enumerate(m.labels_)) / len(A), 'inertia_', rtol=1e-5, atol=1e-6)
    _nearest(t, m.predict(A), D, 'KShape.predict', tol=1e-6)
    gap = np.partition(D, min(1, k - 1), axis=1)[:, min(1, k - 1)] - D.min(1)
    if k == 1 or gap.min() > 1e-6:
        t.ok(np.array_equal(m.predict(A), m.labels_), 'predict(training data) differs from labels_')
    B = np.concatenate([A] * 3)[t.rng.permutation(3 * len(A))]
    t.inp(X=A, Y=B, **kw)
    _nearest(t, m.predict(B), 1 - np.array([[_ncc(x, z) for z in m.cluster_centers_] for x in B]), 'KShape.predict with more series than in fit', tol=1e-6)
    m2 = KShape(**kw).fit(A)
    t.ok(np.array_equal(m2.labels_, m.labels_), 'labels differ with the same random_state')


@case('P15', weight=2)
def dbscan(t):
    cls = getattr(C, 'TimeSeriesDBSCAN', None)
    if cls is None:
        raise Skip
    metric = t.choice(['dtw', 'euclidean', 'frechet', 'precomputed'])
    X, d = _data(t, equal=metric == 'euclidean', n=t.integers(4, 10), scale=2.)
    mp = dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=2) if metric == 'dtw' and t.coin(.3) else {}
    if metric == 'frechet':
        D = np.array([[O.frechet(a, b) for b in X] for a in X])
    else:
        D = _cdist(X, X, 'dtw' if metric == 'precomputed' else metric, mp)
    A = D if metric == 'precomputed' else to_time_series_dataset(X)
    vals = np.unique(D[D > 0])
    eps = float(t.choice(list(vals))) * t.choice([1.01, .99, 1.3]) if len(vals) else 1.
    ms = t.integers(1, 4)
    if np.any(np.abs(D - eps) < 1e-9):
        raise Skip
    t.inp(X=A, eps=eps, min_ts=ms, metric=metric, metric_params=mp)
    m = cls(eps=eps, min_ts=ms, metric=metric, metric_params=mp or None).fit(A)
    n = len(X)
    core = [i for i in range(n) if int((D[i] <= eps).sum()) >= ms]
    t.same(m.core_ts_indices_.tolist(), core, 'core_ts_indices_')
    comp = list(range(n))

    def find(a):
        while comp[a] != a:
            a = comp[a]
        return a
    for a in core:
        for b in core:
            if D[a, b] <= eps:
                comp[find(a)] = find(b)
    L = m.labels_
    t.same(len(L), n, 'number of labels')
    for a in core:
        t.ok(L[a] >= 0, 'core series labelled as noise')
        for b in core:
            t.ok((L[a] == L[b]) == (find(a) == find(b)), f'core series {a}, {b}: labels {L[a]}, {L[b]}')
    for i in range(n):
        if i not in core:
            near = {int(L[c]) for c in core if D[i, c] <= eps}
            t.ok(int(L[i]) in near if near else L[i] == -1, f'series {i}: label {L[i]}, neighbouring clusters {near}')
    t.same(sorted(set(L.tolist()) - {-1}), list(range(len({find(c) for c in core}))), 'cluster indices')
    if metric != 'precomputed' and core:
        t.ok(np.array_equal(m.components_, A[core], equal_nan=True), 'components_')


@case('P15', weight=2)
def silhouette(t):
    metric = t.choice(['dtw', None, 'euclidean', 'callable', 'precomputed'])
    X, d = _data(t, equal=metric in ('euclidean', 'callable'), n=t.integers(4, 8))
    labels = np.array([0, 1] + [t.integers(0, 2) for _ in X[2:]])
    if not 2 <= len(set(labels.tolist())) <= len(X) - 1:
        raise Skip
    D = _cdist(X, X, 'euclidean' if metric == 'euclidean' else 'dtw', {})
    A = D if metric == 'precomputed' else to_time_series_dataset(X)
    t.inp(X=A, labels=labels, metric=metric)
    s = []
    for i in range(len(X)):
        own = [j for j in range(len(X)) if labels[j] == labels[i] and j != i]
        if not own:
            s.append(0.)
            continue
        a = sum(D[i, j] for j in own) / len(own)
        b = min(np.mean([D[i, j] for j in range(len(X)) if labels[j] == c]) for c in set(labels.tolist()) if c != labels[i])
        s.append((b - a) / max(a, b) if max(a, b) > 0 else 0.)
    from tslearn.metrics import dtw
    r = silhouette_score(A, labels, metric=dtw if metric == 'callable' else metric)
    t.close(r, np.mean(s), 'silhouette_score', rtol=1e-6, atol=1e-7)
