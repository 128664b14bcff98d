from .common import *
from sklearn.utils import check_random_state
from tslearn.barycenters import (euclidean_barycenter, dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean,
                                 dtw_barycenter_averaging_subgradient, softdtw_barycenter)


def _set(t, n=None, d=None, equal=None, kind='gauss', hi=7):
    d = d or t.choice([1, 1, 2])
    n = n or t.integers(1, 4)
    sz = t.integers(2, hi)
    equal = t.coin() if equal is None else equal
    return [t.values((sz if equal else t.integers(2, hi), d), kind) for _ in range(n)], d


def _path(x, b, mask=None):
    """the optimal alignment of x and b (unique for generic data)"""
    D = O.cost_matrix(x, b)
    A = O.acc(D, mask)
    i, j = len(D) - 1, len(D[0]) - 1
    p = [(i, j)]
    while (i, j) != (0, 0):
        c = [(A[a][e], (a, e)) for a, e in ((i - 1, j - 1), (i - 1, j), (i, j - 1)) if a >= 0 and e >= 0]
        i, j = min(c)[1]
        p.append((i, j))
    return p, A[-1][-1]


def _objective(X, b, w, c=None):
    r = 0.
    for x, wi in zip(X, w):
        m = omask(len(x), len(b), c or {})
        r += wi * O.acc(O.cost_matrix(x, b), m)[-1][-1]
    return r / sum(w)


def _weights(t, n):
    return t.choice([None, 'r', 'r'])and np.array([t.choice([.5, 1., 2., 3.25]) for _ in range(n)])


@case('P14', weight=3)
def euclidean(t):
    X, d = _set(t, equal=True, kind=None)
    w = _weights(t, len(X))
    t.inp(X=X, weights=w)
    ww = np.ones(len(X)) if w is None else w
    e = [[math.fsum(wi * x[i, k] for wi, x in zip(ww, X)) / math.fsum(ww) for k in range(d)] for i in range(len(X[0]))]
    t.close(euclidean_barycenter(X, weights=w), e, 'Euclidean barycenter', rtol=1e-9, atol=1e-9)


def _constraint(t, X, m):
    c = t.choice([{}, {}, dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(0, 2)), dict(sakoe_chiba_radius=1),
                  dict(global_constraint='itakura', itakura_max_slope=2.)])
    for x in X:
        mm = omask(len(x), m, c)
        if mm == 'warn' or not feas(mm):
            return {}
    return c


@case('P14', weight=6)
def dba_update(t):
    X, d = _set(t)
    n = len(X)
    b = t.values((t.integers(2, 6), d), 'gauss')
    w = _weights(t, n)
    c = _constraint(t, X, len(b))
    nj = t.choice([None, None, 2])
    ww = np.ones(n) if w is None else w
    t.inp(X=X, init_barycenter=b, weights=w, metric_params=c, n_jobs=nj)
    num, den = np.zeros(b.shape), np.zeros(len(b))
    for x, wi in zip(X, ww):
        p, _ = _path(x, b, omask(len(x), len(b), c))
        for i, j in p:
            num[j] += wi * x[i]
            den[j] += wi
    e = num / den[:, None]
    kw = dict(init_barycenter=b.copy(), max_iter=1, weights=w, metric_params=c or None, n_jobs=nj)
    t.close(dtw_barycenter_averaging(X, **kw), e, 'DBA update', rtol=1e-8, atol=1e-8)
    t.close(dtw_barycenter_averaging_petitjean(X, **kw), e, 'DBA update (Petitjean)', rtol=1e-8, atol=1e-8)


@case('P14', weight=4)
def dba_monotone(t):
    X, d = _set(t, kind=t.choice(['gauss', 'walk', 'int', 'half']))
    n = len(X)
    size = t.choice([None, None, t.integers(2, 6)])
    init = t.values((t.integers(2, 6), d), 'gauss') if t.coin(.4) else None
    w = _weights(t, n)
    ww = np.ones(n) if w is None else w
    f = t.choice([dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean])
    t.inp(X=X, barycenter_size=size, init_barycenter=init, weights=w, function=f.__name__)
    prev = math.inf
    for k in range(1, 6):
        b = f(X, barycenter_size=size, init_barycenter=None if init is None else init.copy(), max_iter=k, tol=0., weights=w)
        m = len(init) if init is not None else size or max(map(len, X))
        t.same(b.shape, (m, d), 'barycenter shape')
        o = _objective(X, b, ww)
        if k > 1:
            t.ok(o <= prev * (1 + 1e-9) + 1e-9, f'weighted DTW objective increased from {prev} to {o} at iteration {k}')
        elif init is not None:
            t.ok(o <= _objective(X, init, ww) * (1 + 1e-9) + 1e-9, 'objective increased from the initial barycenter')
        prev = o


@case('P14', weight=2)
def own_barycenter(t):
    x = t.values((t.integers(2, 8), t.choice([1, 2])))
    n = t.integers(1, 4)
    X = [x.copy() for _ in range(n)]
    w = _weights(t, n)
    t.inp(X=X, weights=w)
    for f in (euclidean_barycenter, dtw_barycenter_averaging, dtw_barycenter_averaging_petitjean):
        t.close(f(X, weights=w), x, f'{f.__name__} of identical series', rtol=1e-9, atol=1e-9)
    t.close(dtw_barycenter_averaging_subgradient(X, weights=w, random_state=0), x, 'subgradient DBA of identical series', rtol=1e-9, atol=1e-9)


@case('P14', weight=3)
def subgradient_step(t):
    X, d = _set(t)
    n = len(X)
    b0 = t.values((t.integers(2, 6), d), 'gauss')
    w = _weights(t, n)
    c = _constraint(t, X, len(b0))
    eta, final = t.choice([.05, .1]), t.choice([.005, .01])
    seed = t.integers(0, 1000)
    t.inp(X=X, init_barycenter=b0, weights=w, random_state=seed, initial_step_size=eta, final_step_size=final, metric_params=c)
    b = b0.copy()
    e = eta
    for i in check_random_state(seed).permutation(n):
        p, _ = _path(X[i], b, omask(len(X[i]), len(b), c))
        g = np.zeros(b.shape)
        for a, j in p:
            g[j] += 2 * (b[j] - X[i][a])
        b = b - e * g
        e -= (eta - final) / n
    init = b0.copy()
    r = dtw_barycenter_averaging_subgradient(X, init_barycenter=init, max_iter=1, initial_step_size=eta, final_step_size=final,
                                             random_state=seed, weights=w, metric_params=c or None)
    t.close(r, b, 'one epoch of subgradient descent', rtol=1e-7, atol=1e-7)
    t.ok(np.array_equal(init, b0), 'init_barycenter modified')


def _soft(X, z, w, g, c):
    v, G = 0., np.zeros(z.shape)
    for x, wi in zip(X, w):
        D = O.cost_matrix(z, x)
        m = omask(len(z), len(x), c)
        D = [[D[i][j] if m[i][j] else O.INF for j in range(len(D[0]))] for i in range(len(D))]
        v += wi * O.softdtw(D, g)
        E = np.array(O.softdtw_expected(D, g))
        G += wi * 2 * (E.sum(1)[:, None] * z - E @ x)
    return v, G


def _soft_constraint(t, X, m):
    return _constraint(t, X, m)


@case('P14', weight=4)
def soft_gradient(t):
    try:
        from tslearn.barycenters.softdtw import _acc_softdtw_func as f
        from tslearn.metrics import GLOBAL_CONSTRAINT_CODE as CODE
    except ImportError:
        raise Skip
    X, d = _set(t, hi=6)
    z = t.values((t.integers(1, 6), d), 'gauss')
    w = np.array([t.choice([.5, 1., 2.]) for _ in X])
    g = t.choice([1., .5, .1, 3.])
    c = _soft_constraint(t, X, len(z))
    nj = t.choice([None, None, 2])
    t.inp(Z=z, X=X, weights=w, gamma=g, n_jobs=nj, **c)
    kw = dict(c)
    kw['global_constraint'] = CODE[c.get('global_constraint')]
    try:
        v, G = f(z.ravel(), X, w, g, n_jobs=nj, **kw)
    except TypeError:
        raise Skip
    ev, eg = _soft(X, z, w, g, c)
    t.close(v, ev, 'soft-DTW barycenter objective', rtol=1e-7, atol=1e-7)
    t.close(np.asarray(G).reshape(z.shape), eg, 'soft-DTW barycenter gradient', rtol=1e-6, atol=1e-6)


@case('P14', weight=1)
def soft_minimises(t):
    from scipy.optimize import minimize
    X, d = _set(t, hi=5, n=t.integers(1, 3))
    w = _weights(t, len(X))
    ww = np.ones(len(X)) if w is None else w
    g = t.choice([1., .5, 2.])
    init = t.values((t.integers(2, 5), d), 'gauss') if t.coin() else None
    m = len(init) if init is not None else max(map(len, X))
    c = _soft_constraint(t, X, m)
    t.inp(X=X, weights=w, gamma=g, init=init, **c)
    r0 = softdtw_barycenter(X, gamma=g, weights=w, init=None if init is None else init.copy(), max_iter=0, **c)
    if init is not None:
        t.ok(np.array_equal(r0, init), 'max_iter=0 must return the initial barycenter')
    r = softdtw_barycenter(X, gamma=g, weights=w, tol=1e-9, init=None if init is None else init.copy(), max_iter=200, **c)
    t.same(r.shape, (m, d), 'shape of the soft-DTW barycenter')
    f0, f1 = _soft(X, r0, ww, g, c)[0], _soft(X, r, ww, g, c)[0]
    t.ok(f1 <= f0 + 1e-9 * (1 + abs(f0)), f'objective increased from {f0} to {f1}')
    fun = lambda z: tuple(np.ravel(v) if k else v for k, v in enumerate(_soft(X, z.reshape(r.shape), ww, g, c)))
    best = minimize(fun, r.ravel(), jac=True, method='L-BFGS-B', options=dict(maxiter=40)).fun
    t.ok(f1 <= best + 1e-3 * (1 + abs(best)), f'not a minimiser: {f1}, reachable from there {best}')
