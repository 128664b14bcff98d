from .common import *
from tslearn.shapelets import LearningShapelets
from tslearn.shapelets.shapelets import grabocka_params_to_shapelet_size_dict
from tslearn.utils import to_time_series_dataset


def _minmax(x):
    lo, hi = x.min(axis=0), x.max(axis=0)
    r = np.where(hi - lo == 0, 1., hi - lo)
    return (x - lo) / r


def _windows(x, s):
    L = len(s)
    return [float(((x[i:i + L] - s) ** 2).sum()) / L for i in range(len(x) - L + 1)]


def _form(t, X, eq):
    return to_time_series_dataset([x.copy() for x in X])


def _verify(t, m, X, A, scale, msg):
    """transform / locate / proba / predict against the definition"""
    S = m.shapelets_
    t.same(len(S), sum(m.n_shapelets_per_size_.values()), msg + ': number of shapelets')
    sizes = [sz for sz, nb in m.n_shapelets_per_size_.items() for _ in range(nb)]
    t.same([len(s) for s in S], sizes, msg + ': shapelet lengths')
    P = m.shapelets_as_time_series_
    for i, s in enumerate(S):
        t.close(P[i, :len(s)], s, msg + f': shapelet {i} as a time series')
        t.ok(np.isnan(P[i, len(s):]).all(), msg + ': tail of a short shapelet')
    V, Lc = m.transform(A), m.locate(A)
    t.same(V.shape, (len(X), len(S)), msg + ': shape of transform')
    t.same(Lc.shape, (len(X), len(S)), msg + ': shape of locate')
    for i, x in enumerate(X):
        z = _minmax(x) if scale else x
        for j, s in enumerate(S):
            w = _windows(z.astype(np.float32).astype(float), np.asarray(s, dtype=float))
            tol = 1e-5 * (1 + float((z ** 2).max()) + float((np.asarray(s) ** 2).max())) * z.shape[1] * 4
            t.ok(abs(V[i, j] - min(w)) <= tol, f'{msg}: transform[{i}, {j}] is {V[i, j]}, smallest window distance {min(w)}')
            t.ok(0 <= Lc[i, j] < len(w), f'{msg}: locate[{i}, {j}] is {Lc[i, j]}, {len(w)} windows')
            t.ok(w[Lc[i, j]] <= min(w) + tol, f'{msg}: window at located position {Lc[i, j]} has distance {w[Lc[i, j]]}, smallest {min(w)}')
    pr = m.predict_proba(A)
    t.same(pr.shape, (len(X), len(m.classes_)), msg + ': shape of predict_proba')
    t.close(pr.sum(axis=1), np.ones(len(X)), msg + ': probabilities sum to one', rtol=1e-4, atol=1e-4)
    t.ok((pr >= 0).all(), msg + ': negative probability')
    L = m.predict(A)
    for i in range(len(X)):
        t.ok(pr[i][list(m.classes_).index(L[i])] >= pr[i].max() - 1e-5, f'{msg}: label {L[i]} of series {i}, probabilities {pr[i]}')
    # head of the network recomputed from the reported transform and weights
    W = m.get_weights('classification')
    lo = V @ np.asarray(W[0], dtype=float) + W[1]
    if lo.shape[1] == 1:
        e = 1 / (1 + np.exp(-lo[:, 0]))
        e = np.stack([1 - e, e], axis=1)
    else:
        e = np.exp(lo - lo.max(axis=1, keepdims=True))
        e /= e.sum(axis=1, keepdims=True)
    t.close(pr, e, msg + ': class probabilities from the transform', rtol=1e-2, atol=2e-3)


@case('P20', weight=2)
def shapelet_transform(t):
    d = t.choice([1, 1, 2])
    n = t.integers(4, 8)
    eq = t.coin(.4)
    lmax = t.integers(5, 12)
    X = [t.values((lmax if eq or i == 0 else t.integers(4, lmax), d), t.choice(['gauss', 'walk', 'int', 'big'])) for i in range(n)]
    sizes = {int(s): t.integers(1, 3) for s in t.rng.choice([1, 2, 3, 4], size=t.integers(1, 3), replace=False)}
    lab = t.choice([[0, 1], ['a', 'b'], [0, 1, 2], [5, -1, 3]])
    y = [lab[i % len(lab)] for i in range(n)]
    scale = t.coin()
    ms = t.choice([None, None, lmax + 3])
    kw = dict(n_shapelets_per_size=sizes if t.coin(.8) else None, max_iter=t.choice([1, 2]), scale=scale, max_size=ms,
              batch_size=t.choice([2, 256]), random_state=t.integers(0, 9), weight_regularizer=t.choice([0., .01]))
    if kw['n_shapelets_per_size'] is None:
        kw.update(shapelet_length=t.choice([.15, .3]), total_lengths=t.integers(1, 2))
    A = _form(t, X, eq)
    t.inp(X=A, y=y, **kw)
    sizes0 = dict(sizes)
    m = LearningShapelets(**kw).fit(A, y)
    t.same(sizes, sizes0, 'n_shapelets_per_size was modified')
    if kw['n_shapelets_per_size'] is not None:
        t.same(dict(m.n_shapelets_per_size_), sizes0, 'n_shapelets_per_size_')
    t.same(sorted(m.classes_), sorted(set(y)), 'classes_')
    _verify(t, m, X, A, scale, 'training data')
    if t.coin(.6):       # explicit weights
        W = [t.values(w.shape, 'gauss') for w in m.get_weights()]
        m.set_weights(W)
        for a, b in zip(m.get_weights(), W):
            t.close(a, b, 'get_weights after set_weights', rtol=1e-5, atol=1e-5)
        _verify(t, m, X, A, scale, 'after set_weights')
    lo = max(m.n_shapelets_per_size_)
    Q = [t.values((t.integers(lo, lmax), d), t.choice(['gauss', 'int'])) for _ in range(t.integers(1, 4))]
    _verify(t, m, Q, to_time_series_dataset(Q), scale, 'new data')
    _verify(t, m, X[:2], to_time_series_dataset(X[:2]), scale, 'subset of the training data')


@case('P20', maxrounds=200)
def grabocka(t):
    n, sz, c, l, r = t.integers(1, 300), t.integers(1, 300), t.integers(2, 6), t.choice([.05, .1, .15, .3]), t.integers(1, 3)
    if max(int(l * sz), 1) * min(r, sz) > sz:
        raise Skip
    t.inp(n_ts=n, ts_sz=sz, n_classes=c, l=l, r=r)
    D = grabocka_params_to_shapelet_size_dict(n, sz, c, l, r)
    b = max(int(l * sz), 1)
    E = {b * (k + 1): max(1, int(np.log10(n * (sz - b * (k + 1) + 1) * (c - 1)))) for k in range(min(r, sz))}
    t.same(D, E, 'shapelet sizes')
