from .common import *
import tslearn.metrics as M
from tslearn.metrics import cdist_normalized_cc, y_shifted_sbd_vec, ctw, ctw_path, cdist_ctw


def _cc(x, y):
    """sum_u <x[u+s], y[u]> for the shifts s = -(sz-1) .. sz-1, divided by the norms"""
    sz = len(x)
    nn = math.sqrt(float((x ** 2).sum())) * math.sqrt(float((y ** 2).sum()))
    out = []
    for s in range(-(sz - 1), sz):
        v = 0.
        for u in range(sz):
            if 0 <= u + s < sz:
                v += float((x[u + s] * y[u]).sum())
        out.append(v / nn if nn >= 1e-9 else 0.)
    return out


def _shift(y, s):
    sz = len(y)
    r = np.zeros_like(y)
    for u in range(sz):
        if 0 <= u - s < sz:
            r[u] = y[u - s]
    return r


def _ds(t, n, sz, d):
    X = [t.values((sz, d), t.choice(['int', 'gauss', 'gauss', 'walk'])) for _ in range(n)]
    if t.coin(.15):
        X[t.integers(0, n - 1)] = np.zeros((sz, d))
    return np.array(X)


def _n(X):
    return np.array([math.sqrt(float((x ** 2).sum())) for x in X])


@case('P23', weight=3)
def normalized(t):
    try:
        from tslearn.metrics.cycc import normalized_cc
    except ImportError:
        raise Skip
    sz, d = t.integers(1, 9), t.choice([1, 1, 2, 3])
    x, y = _ds(t, 2, sz, d)
    t.inp(s1=x, s2=y)
    a, b = x.copy(), y.copy()
    e = _cc(x, y)
    r = normalized_cc(x, y)
    t.close(r, e, 'normalized cross-correlation', rtol=1e-7, atol=1e-9)
    t.ok(np.abs(r).max() <= 1 + 1e-9, 'values outside [-1, 1]')
    t.close(normalized_cc(x, y, norm1=float(_n([x])[0]), norm2=float(_n([y])[0])), e, 'with given norms', rtol=1e-7, atol=1e-9)
    t.close(normalized_cc(y, x), e[::-1], 'reversed arguments mirror the shifts', rtol=1e-7, atol=1e-9)
    t.ok(np.array_equal(x, a) and np.array_equal(y, b), 'the series were modified')


@case('P23', weight=2)
def pairwise(t):
    sz, d = t.integers(1, 7), t.choice([1, 1, 2])
    X, Y = _ds(t, t.integers(1, 5), sz, d), _ds(t, t.integers(1, 4), sz, d)
    same = t.coin(.3)
    given = t.coin()
    nx, ny = (_n(X), _n(Y)) if given else (np.full(len(X), -1.), np.full(len(Y), -1.))
    t.inp(X=X, Y=Y, self_similarity=same, norms=given)
    if same:
        R = cdist_normalized_cc(X, X, norms1=nx.copy(), norms2=nx.copy(), self_similarity=True)
        for i in range(len(X)):
            for j in range(len(X)):
                t.close(R[i, j], max(_cc(X[i], X[j])), f'self-similarity ({i}, {j})', rtol=1e-7, atol=1e-9)
    R = cdist_normalized_cc(X, Y, norms1=nx, norms2=ny, self_similarity=False)
    t.same(R.shape, (len(X), len(Y)), 'shape')
    for i in range(len(X)):
        for j in range(len(Y)):
            t.close(R[i, j], max(_cc(X[i], Y[j])), f'maximal correlation ({i}, {j})', rtol=1e-7, atol=1e-9)


@case('P23', weight=2)
def shifted(t):
    sz, d = t.integers(1, 7), t.choice([1, 1, 2])
    x = _ds(t, 1, sz, d)[0]
    Y = _ds(t, t.integers(1, 4), sz, d)
    k = t.choice(['any', 'self', 'shift'])
    if k == 'self':
        Y[0] = x
    if k == 'shift':
        Y[0] = _shift(x, t.integers(-(sz - 1), sz - 1))
    t.inp(ref=x, dataset=Y)
    given = t.coin()
    b = Y.copy()
    R = y_shifted_sbd_vec(x, Y, norm_ref=float(_n([x])[0]) if given else -1., norms_dataset=_n(Y) if given else np.full(len(Y), -1.))
    t.same(R.shape, Y.shape, 'shape')
    t.ok(np.array_equal(Y, b), 'the dataset was modified')
    for i, y in enumerate(Y):
        cc = _cc(x, y)
        m = max(cc)
        if not np.any(x) or not np.any(y):
            continue
        good = [q - (sz - 1) for q, v in enumerate(cc) if v >= m - 1e-9]
        t.ok(any(np.array_equal(R[i], _shift(y, s)) for s in good), f'series {i} is not shifted to a best alignment {good}: {R[i].tolist()}')
        if k == 'self' and i == 0 and len(good) == 1:
            t.ok(np.array_equal(R[i], x), 'a series is aligned to itself by shift zero')


def _cca_project(path, x, y, nc):
    """canonical projection for the alignment `path` (scikit-learn CCA on the aligned frames)"""
    from sklearn.cross_decomposition import CCA
    c = CCA(n_components=nc)
    c.fit(x[[i for i, _ in path]], y[[j for _, j in path]])
    return c.transform(x, y)


@case('P23', weight=1)
def ctw_first(t):
    """one iteration: DTW on the series truncated to n_components features"""
    d1, d2 = t.choice([(1, 1), (2, 2), (1, 2), (3, 2)])
    x, y = t.values((t.integers(3, 6), d1), 'gauss'), t.values((t.integers(3, 6), d2), 'gauss')
    nc = t.choice([None, 1])
    k = nc or min(d1, d2)
    c = t.choice([{}, {}, dict(sakoe_chiba_radius=2), dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=1)])
    t.inp(s1=x, s2=y, n_components=nc, **c)
    a, b = x.copy(), y.copy()
    p, cca, s = ctw_path(x, y, max_iter=1, n_components=nc, **c)
    m = omask(len(x), len(y), c)
    e = O.dtw(x[:, :k], y[:, :k], m)
    t.close(s, e, 'cost after the first iteration', rtol=1e-7, atol=1e-9)
    D = O.cost_matrix(x[:, :k], y[:, :k])
    t.ok(O.valid_path([tuple(q) for q in p], len(x), len(y)), f'invalid path {p}')
    t.ok(all(m[i][j] for i, j in p), f'path leaves the mask {p}')
    t.close(math.sqrt(path_cost(D, p)), e, 'cost along the path', rtol=1e-7, atol=1e-9)
    t.close(ctw(x, y, max_iter=1, n_components=nc, **c), e, 'ctw', rtol=1e-7, atol=1e-9)
    t.ok(np.array_equal(x, a) and np.array_equal(y, b), 'the series were modified')


def _proj(t):
    d = t.choice([1, 2, 2])
    x, y = t.values((t.integers(4, 7), d), 'gauss'), t.values((t.integers(4, 7), d), 'gauss')
    nc = t.choice([None, 1])
    t.inp(s1=x, s2=y, n_components=nc)
    p, cca, s = ctw_path(x, y, max_iter=2, n_components=nc)
    u, v = cca.transform(x.copy(), y.copy())
    return x, y, p, s, u, v


@case('P23', weight=1)
def ctw_projected(t):
    """the reported path is a DTW path of the canonically projected series"""
    x, y, p, s, u, v = _proj(t)
    t.ok(O.valid_path([tuple(q) for q in p], len(x), len(y)), f'invalid path {p}')
    t.close(math.sqrt(path_cost(O.cost_matrix(u, v), p)), O.dtw(u, v, omask(len(x), len(y), {})), 'cost along the path on the projected series', rtol=1e-6, atol=1e-8)


@case('P23', weight=1)
def ctw_score(t):
    """the reported cost is the DTW cost of the canonically projected series"""
    x, y, p, s, u, v = _proj(t)
    t.close(s, O.dtw(u, v, omask(len(x), len(y), {})), 'cost is the DTW of the projected series', rtol=1e-6, atol=1e-8, key='ctw_first_iteration')
