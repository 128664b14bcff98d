from .common import *
from tslearn.early_classification import NonMyopicEarlyClassifier
from tslearn.neighbors import KNeighborsTimeSeriesClassifier
from tslearn.utils import to_time_series_dataset
from sklearn.model_selection import train_test_split


def _fit(t):
    d = t.choice([1, 1, 2])
    sz = t.integers(3, 8)
    K = t.choice([1, 2, 2, 3])
    n = t.integers(6, 14) + 2 * K
    lab = t.choice([[0, 1], ['a', 'b'], [0, 1, 2], [7, -2]])
    y = [lab[t.integers(0, len(lab) - 1)] for _ in range(n)]
    y[:len(lab)] = lab
    X = np.array([t.values((sz, d), 'gauss') + (3. * lab.index(v) if t.coin(.8) else 0.) for v in y])
    kw = dict(n_clusters=K, min_t=t.integers(1, sz), lamb=t.choice([0., 1., 100.]),
              cost_time_parameter=t.choice([0., .001, .05, .3, 1.]), random_state=t.integers(0, 5))
    if t.coin(.5):
        kw['base_classifier'] = KNeighborsTimeSeriesClassifier(n_neighbors=t.integers(1, 2), metric=t.choice(['euclidean', 'dtw']))
    t.inp(X=X, y=y, **kw)
    m = NonMyopicEarlyClassifier(**kw)
    try:
        m.fit(X.copy(), list(y))
    except ValueError as e:            # stratified split impossible
        if 'least populated' in str(e) or 'test_size' in str(e) or 'train_size' in str(e) or 'number of classes' in str(e):
            raise Skip
        raise
    return m, X, np.array(y), kw, d, sz


def _cluster_probas(m, x, lamb):
    ds = [float(np.sqrt(((x - c[:len(x)]) ** 2).sum())) for c in m.cluster_.cluster_centers_]
    avg = sum(ds) / len(ds)
    s = [1 / (1 + math.exp(-lamb * (1 - dd / avg))) for dd in ds]
    return np.array([v / sum(s) for v in s])


def _expected(m, x, kw, T):
    """cost of stopping at each time len(x)..T, from the fitted confusion tables"""
    p = _cluster_probas(m, x, kw['lamb'])
    res = []
    for u in range(len(x), T + 1):
        c = 0.
        for k in range(len(p)):
            for a in range(m.pyck_.shape[0]):
                for b in range(m.pyck_.shape[0]):
                    c += p[k] * m.pyck_[a, k] * m.pyhatyck_[u - kw['min_t'], k, a, b]
        res.append(c + kw['cost_time_parameter'] * u)
    return res


def _stop(m, x, kw, T):
    """(time, certain)"""
    for u in range(kw['min_t'], T + 1):
        e = _expected(m, x[:u], kw, T)
        if u == T or e[0] <= min(e):
            sure = u == T or all(abs(v - e[0]) > 1e-9 for v in e[1:])
            return u, sure
        if abs(e[0] - min(e)) < 1e-9:
            return u, False
    raise AssertionError


@case('P22', weight=3)
def decision(t):
    m, X, y, kw, d, sz = _fit(t)
    Q = np.concatenate([X[:3], np.array([t.values((sz, d), 'gauss') for _ in range(2)])])
    if any(np.abs(m.cluster_.cluster_centers_[:, :u] - x[:u]).sum() == 0 for x in Q for u in range(1, sz + 1)):
        raise Skip
    classes = sorted(set(y.tolist()))
    if len(m.classifiers_[kw['min_t']].classes_) < len(classes):      # the training half misses a class
        raise Skip
    t.same(list(m.classes_), classes, 'classes_')
    P, T = m.predict_class_and_earliness(Q.copy())
    PR, T2 = m.predict_proba_and_earliness(Q.copy())
    t.same((len(P), len(T)), (len(Q), len(Q)), 'one decision per series')
    t.same(list(T), list(T2), 'times of predict_proba_and_earliness')
    t.same(list(m.predict(Q.copy())), list(P), 'predict')
    t.close(m.predict_proba(Q.copy()), PR, 'predict_proba')
    for i, x in enumerate(Q):
        u, sure = _stop(m, x, kw, sz)
        if sure:
            t.same(int(T[i]), u, f'stopping time of series {i}')
        u = int(T[i])
        t.ok(kw['min_t'] <= u <= sz, f'time {u} of series {i}')
        c = m.classifiers_[u]
        t.same(P[i], c.predict(x[None, :u])[0], f'class of series {i} from the classifier of its stopping time')
        t.close(PR[i], c.predict_proba(x[None, :u])[0], f'probabilities of series {i}')
        t.close(PR[i].sum(), 1., 'probabilities sum to one')
        for v in range(1, sz + 1):
            g = m.get_cluster_probas(x[:v])
            t.close(g.sum(), 1., 'cluster probabilities sum to one')
            t.close(g, _cluster_probas(m, x[:v], kw['lamb']), f'cluster probabilities at time {v}')
        for v in range(kw['min_t'], sz + 1):
            t.close(m._expected_costs(x[:v]), _expected(m, x[:v], kw, sz), f'expected costs at time {v}')
    yq = t.rng.choice(classes, size=len(Q))
    e = sum(a != b for a, b in zip(P, yq)) / len(Q) + kw['cost_time_parameter'] * float(np.mean(T))
    t.close(m.early_classification_cost(Q.copy(), yq), e, 'early classification cost')


@case('P22', weight=2)
def fitted_tables(t):
    """cluster priors and per-time confusion tables from the documented split"""
    m, X, y, kw, d, sz = _fit(t)
    classes = sorted(set(y.tolist()))
    ck = m.cluster_.labels_
    for k in range(kw['n_clusters']):
        nk = sum(1 for v in ck if v == k)
        for a, c in enumerate(classes):
            e = sum(1 for v, w in zip(ck, y) if v == k and w == c) / nk if nk else np.nan
            t.close(m.pyck_[a, k], e, f'prior of class {c} in cluster {k}')
    X1, X2, k1, k2, y1, y2 = train_test_split(X, ck, y, test_size=.5, stratify=ck, random_state=kw['random_state'])
    for u in range(kw['min_t'], sz + 1):
        base = kw.get('base_classifier') or KNeighborsTimeSeriesClassifier(n_neighbors=1, metric='euclidean')
        c = type(base)(**base.get_params()).fit(X1[:, :u], y1)
        t.same(list(m.classifiers_[u].predict(X[:, :u])), list(c.predict(X[:, :u])), f'classifier of prefix length {u}')
        for k in range(kw['n_clusters']):
            idx = [i for i in range(len(k2)) if k2[i] == k]
            if not idx:
                continue
            yh = c.predict(X2[idx, :u])
            for a, p in enumerate(classes):
                for b, q in enumerate(classes):
                    col = sum(1 for v in yh if v == q)
                    e = 0. if a == b or not col else sum(1 for i, v in zip(idx, yh) if v == q and y2[i] == p) / col
                    t.close(m.pyhatyck_[u - kw['min_t'], k, a, b], e, f'confusion entry t={u} k={k} ({p}, {q})')


@case('P22', weight=2)
def early_predict(t):
    m, X, y, kw, d, sz = _fit(t)
    u = t.integers(1, sz)
    Q = [x[:u] for x in X[:4]]
    if any(np.abs(m.cluster_.cluster_centers_[:, :len(x)] - x).sum() == 0 for x in Q):
        raise Skip
    A = to_time_series_dataset(Q)
    P, T = m.early_predict(A)
    PR, T2 = m.early_predict_proba(A)
    for i, x in enumerate(Q):
        if len(x) < kw['min_t']:
            t.ok(np.isnan(np.asarray(T[i], dtype=float)) and np.isnan(np.asarray(PR[i], dtype=float)).all(), f'series {i} is shorter than min_t')
            continue
        c = m.classifiers_[len(x)]
        t.same(str(P[i]) if isinstance(P[i], str) else P[i], str(c.predict(x[None])[0]) if isinstance(P[i], str) else c.predict(x[None])[0], f'early prediction of series {i}')
        t.close(np.asarray(PR[i], dtype=float), c.predict_proba(x[None])[0], f'early probabilities of series {i}')
        e = _expected(m, x, kw, sz)
        for T_ in (T, T2):
            t.ok(e[int(T_[i])] <= min(e) + 1e-9, f'remaining time {T_[i]} of series {i}, expected costs {e}')
    g = m.get_early_predict_generator(2)
    S = np.zeros((2, 0, d))
    for u in range(sz):
        inc = X[:2, u:u + 1]
        p, tt = g.send(inc)
        S = np.concatenate([S, inc], axis=1)
        if u + 1 < kw['min_t']:
            t.ok(np.isnan(np.asarray(tt, dtype=float)).all(), 'generator before min_t')
            continue
        if any(np.abs(m.cluster_.cluster_centers_[:, :u + 1] - x).sum() == 0 for x in S):
            return
        q, tq = m.early_predict(S)
        t.same([str(v) for v in p], [str(v) for v in q], f'generator predictions after {u + 1} timestamps')
        t.same(list(tt), list(tq), f'generator times after {u + 1} timestamps')
