from .common import *
from tslearn.metrics import lcss, lcss_path, lcss_path_from_metric


def _setup(t, lo=1, hi=8):
    x = t.series(lo, hi, kind=t.choice(['int', 'gauss', 'half', 'const', 'walk']))
    y = t.series(lo, hi, d=x.shape[1], kind=t.choice(['int', 'gauss', 'half', 'walk']))
    eps = t.choice([0., .3, .5, 1., 1., 2., 3.1])
    c = constraint(t, len(x), len(y))
    m = omask(len(x), len(y), c)
    if m == 'warn':
        raise Skip
    return x, y, eps, c, m


def _check_path(t, p, n, m, ok, k):
    p = [(int(a), int(b)) for a, b in p]
    t.same(len(p), k, 'number of matched pairs')
    for a, b in p:
        t.ok(0 <= a < n and 0 <= b < m and ok[a][b], f'pair {(a, b)} is not an admissible match')
    for (a, b), (c, d) in zip(p, p[1:]):
        t.ok(a < c and b < d, 'matching is not strictly increasing')


def _ok(x, y, eps, m):
    return [[m[i][j] and math.sqrt(O.sq(x[i], y[j])) <= eps for j in range(len(y))] for i in range(len(x))]


def _run(t, be):
    x, y, eps, c, m = _setup(t)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, eps=eps, backend=be, **c)
    ok = _ok(x, y, eps, m)
    k = O.lcs_match(ok)
    exp = k / min(len(x), len(y))
    t.close(lcss(ax, ay, eps=eps, **c), exp, 'lcss value')
    p, s = lcss_path(ax, ay, eps=eps, **c)
    t.close(s, exp, 'lcss_path similarity')
    _check_path(t, p, len(x), len(y), ok, k)


@case('P08', weight=8)
def value_and_path_numpy(t):
    _run(t, 'numpy')


@case('P08', weight=4)
def value_and_path_torch(t):
    _run(t, 'torch')


@case('P08', weight=3)
def subset_enumeration(t):
    x, y, eps, c, m = _setup(t, 1, 5)
    t.inp(x=x, y=y, eps=eps, **c)
    ok = _ok(x, y, eps, m)
    n = len(x)

    def best(i, j0):
        if i == n:
            return 0
        r = best(i + 1, j0)
        for j in range(j0, len(y)):
            if ok[i][j]:
                r = max(r, 1 + best(i + 1, j + 1))
        return r
    t.close(lcss(x, y, eps=eps, **c), best(0, 0) / min(n, len(y)), 'lcss against exhaustive matching')


@case('P08', weight=4)
def from_metric(t):
    x, y, eps, c, m = _setup(t)
    k = t.choice(['precomputed', 'cityblock', 'sqeuclidean', 'euclidean', 'callable'])
    fs = dict(cityblock=lambda a, b: sum(abs(p - q) for p, q in zip(a, b)), sqeuclidean=O.sq,
              euclidean=lambda a, b: math.sqrt(O.sq(a, b)), callable=lambda a, b: abs(a[0] - 2 * b[0]))
    be = t.choice(['numpy', 'numpy', 'torch'])
    if k == 'precomputed':
        D = np.abs(t.values((len(x), len(y))))
        aD = to_backend(t, D, be)
        t.inp(D=aD, eps=eps, **c)
        p, s = lcss_path_from_metric(aD, eps=eps, metric='precomputed', **c)
    else:
        if be == 'torch' and k == 'cityblock':
            k = 'sqeuclidean'
        D = O.cost_matrix(x, y, fs[k])
        ax, ay = to_backend(t, x, be), to_backend(t, y, be)
        t.inp(x=ax, y=ay, metric=k, eps=eps, **c)
        met = fs[k] if k == 'callable' else k
        if be == 'torch' and k in ('euclidean', 'sqeuclidean'):
            # matrix-multiplication based distances: keep clear of the threshold
            if any(abs(v - eps) < 1e-4 for r in D for v in r):
                raise Skip
        p, s = lcss_path_from_metric(ax, ay, eps=eps, metric=met, **c)
    ok = [[bool(m[i][j]) and D[i][j] <= eps for j in range(len(D[0]))] for i in range(len(D))]
    n = O.lcs_match(ok)
    t.close(s, n / min(len(D), len(D[0])), 'similarity')
    _check_path(t, p, len(D), len(D[0]), ok, n)


@case('P08', weight=2)
def monotone_bounds(t):
    x, y, eps, c, m = _setup(t)
    t.inp(x=x, y=y, eps=eps, **c)
    a, b = lcss(x, y, eps=eps, **c), lcss(x, y, eps=eps + t.choice([.1, 1.]), **c)
    t.ok(0 <= a <= b + 1e-12 <= 1 + 1e-9, f'lcss not monotone in eps or outside [0,1]: {a} {b}')
    t.close(lcss(x, x, eps=eps), 1., 'lcss(x, x)')
    t.close(lcss(y, x, eps=eps), lcss(x, y, eps=eps), 'symmetry')
