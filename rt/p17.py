from .common import *
import tslearn.metrics as M
from tslearn.utils import to_time_series_dataset, to_time_series, ts_size
from tslearn.barycenters import softdtw_barycenter


def _np(v):
    return tonp(v) if not isinstance(v, (list, tuple, dict)) else v


def _snap(v):
    return tonp(v).copy() if hasattr(v, 'shape') else repr(v)


def _unchanged(a, b):
    return np.array_equal(tonp(a), b, equal_nan=tonp(a).dtype.kind == 'f') if hasattr(a, 'shape') else repr(a) == b


def _three(t, f, arrs, kw, paths=(), tol=1e-7, cost=None, istorch=True):
    """the same call: NumPy arrays / torch tensors / the other backend chosen explicitly"""
    t.inp(function=getattr(f, '__name__', str(f)), args=arrs, **kw)
    res = []
    for mode in ('numpy', 'torch', 'numpy->torch', 'torch->numpy'):
        a = [torch.tensor(np.asarray(x)) if mode.startswith('torch') and hasattr(x, 'shape') else x for x in arrs]
        k = dict(kw)
        if '->' in mode:
            k['be'] = {'torch': 'pytorch', 'numpy': 'numpy'}[mode.split('->')[1]]
        s = [_snap(x) for x in a]
        try:
            r = f(*a, **k)
        except Exception as e:
            r = e
        t.ok(all(_unchanged(x, y) for x, y in zip(a, s)), f'{mode}: an input was modified')
        res.append((mode, r))
    m0, r0 = res[0]
    for m, r in res[1:]:
        if isinstance(r0, Exception) or isinstance(r, Exception):
            t.ok(type(r) is type(r0), f'{m}: {type(r).__name__} {r if isinstance(r, Exception) else ""} but {m0}: {type(r0).__name__} {r0 if isinstance(r0, Exception) else ""}')
            continue
        A, B = (r, r0) if isinstance(r, tuple) else ((r,), (r0,))
        t.same(len(A), len(B), f'{m}: number of results')
        for q, (u, v) in enumerate(zip(A, B)):
            if q in paths:
                pu, pv = [tuple(int(z) for z in w) for w in u], [tuple(int(z) for z in w) for w in v]
                if pu != pv and cost is not None:
                    t.close(cost(pu), cost(pv), f'{m}: cost of the path {pu} differs from the one of {pv}', rtol=1e-6, atol=1e-7)
                else:
                    t.same(pu, pv, f'{m}: path differs from {m0}')
            else:
                t.close(u, v, f'{m} differs from {m0}', rtol=tol, atol=tol)
    return r0


def _pair(t, lo=1, hi=7, d=None):
    x = t.series(lo, hi, d=d)
    return x, t.series(lo, hi, d=x.shape[1])


def _gc(t, x, y):
    c = constraint(t, len(x), len(y))
    m = omask(len(x), len(y), c)
    if m == 'warn':
        raise Skip
    return c, m


@case('P17', weight=3)
def alignment_metrics(t):
    x, y = _pair(t)
    c, m = _gc(t, x, y)
    D = O.cost_matrix(x, y)
    if not feas(m):
        raise Skip
    k = t.choice(['dtw', 'dtw_path', 'frechet', 'frechet_path', 'lcss', 'lcss_path'])
    f = getattr(M, k)
    kw = dict(c)
    if k.startswith('lcss'):
        kw['eps'] = t.choice([.5, 1., 2.])
        cost = None
        if k == 'lcss_path':
            cost = len
        # ties at the threshold are decided by rounding
        if any(abs(math.sqrt(v) - kw['eps']) < 1e-9 for r in D for v in r):
            raise Skip
    elif k == 'dtw_path':
        cost = lambda p: path_cost(D, p)
    else:
        cost = lambda p: max(D[i][j] for i, j in p)
    _three(t, f, [x, y], kw, paths=(0,) if k.endswith('path') else (), cost=cost)


@case('P17', weight=2)
def from_metric(t):
    x, y = _pair(t)
    c, m = _gc(t, x, y)
    if not feas(m):
        raise Skip
    D = np.array(O.cost_matrix(x, y))
    k = t.choice(['dtw_path_from_metric', 'frechet_path_from_metric', 'lcss_path_from_metric'])
    me = t.choice(['euclidean', 'sqeuclidean', 'precomputed'])
    cost = {'d': lambda p: path_cost(C, p), 'f': lambda p: max(C[i][j] for i, j in p), 'l': len}[k[0]]
    C = np.sqrt(D) if me == 'euclidean' else D
    if k[0] == 'l':
        e = t.choice([.5, 1.25])
        c = dict(c, eps=e)
        if (np.abs(C - e) < 1e-9).any():
            raise Skip
    f = getattr(M, k)
    if me == 'precomputed':
        _three(t, f, [D], dict(c, metric=me), paths=(0,), cost=cost)
    else:
        _three(t, f, [x, y], dict(c, metric=me), paths=(0,), cost=cost)


@case('P17', weight=2)
def smooth_metrics(t):
    x, y = _pair(t)
    k = t.choice(['soft_dtw', 'soft_dtw_alignment', 'gak', 'unnormalized_gak', 'soft_dtw_normalized'])
    kw = dict(sigma=t.choice([.7, 1., 3.])) if 'gak' in k else dict(gamma=t.choice([.1, 1., 5.]))
    _three(t, getattr(M, k), [x, y], kw, tol=1e-6)


@case('P17', weight=2)
def variants(t):
    x, y = _pair(t)
    k = t.choice(['subsequence', 'subseq_cost', 'limited', 'limited_path', 'envelope', 'keogh', 'acc_dtw', 'acc_fre'])
    D = O.cost_matrix(x, y)
    if k == 'subsequence':
        if len(x) > len(y):
            x, y = y, x
            D = O.cost_matrix(x, y)
        _three(t, M.dtw_subsequence_path, [x, y], {}, paths=(0,), cost=lambda p: path_cost(D, p))
    elif k == 'subseq_cost':
        _three(t, M.subsequence_cost_matrix, [x, y], {})
    elif k.startswith('limited'):
        L = t.integers(max(len(x), len(y)), len(x) + len(y))
        if k == 'limited':
            _three(t, M.dtw_limited_warping_length, [x, y, L], {})
        else:
            _three(t, M.dtw_path_limited_warping_length, [x, y, L], {}, paths=(0,), cost=lambda p: path_cost(D, p))
    elif k == 'envelope':
        _three(t, M.lb_envelope, [x], dict(radius=t.integers(0, 4)))
    elif k == 'keogh':
        z = t.values(x.shape, 'gauss')
        r = t.integers(0, 4)
        a = M.lb_keogh(x[:, :1], z[:, :1], radius=r)
        t.inp(x=x, z=z, radius=r)
        t.close(M.lb_keogh(torch.tensor(x[:, :1]), torch.tensor(z[:, :1]), radius=r), a, 'lb_keogh of tensors')
    else:
        c, m = _gc(t, x, y)
        mm = np.array(m, dtype=bool)
        f = M.dtw_accumulated_matrix if k == 'acc_dtw' else __import__('tslearn.metrics._frechet', fromlist=['x']).accumulated_matrix
        a = tonp(f(x, y, mm))
        t.inp(function=k, s1=x, s2=y, mask=mm)
        t.close(f(torch.tensor(x), torch.tensor(y), torch.tensor(mm)), a, f'{k} of tensors')


@case('P17', weight=2)
def masks(t):
    n, m = t.integers(1, 9), t.integers(1, 9)
    k = t.choice(['sakoe', 'itakura', 'compute'])
    t.inp(kind=k, n=n, m=m)
    if k == 'sakoe':
        rad = t.integers(0, 6)
        f = lambda be: M.sakoe_chiba_mask(n, m, rad, be=be)
    elif k == 'itakura':
        s = t.choice([1., 1.5, 2., 3.3])
        f = lambda be: M.itakura_mask(n, m, s, be=be)
    else:
        c = constraint(t, n, m)
        if omask(n, m, c) == 'warn':
            raise Skip
        c = dict(c)
        g = c.pop('global_constraint', None)
        f = lambda be: M.compute_mask(n, m, M.GLOBAL_CONSTRAINT_CODE[g], be=be, **c)
    r = []
    for be in ('numpy', 'pytorch'):
        try:
            r.append(tonp(f(be)).astype(bool))
        except Exception as e:
            r.append(type(e))
    if isinstance(r[0], type) or isinstance(r[1], type):
        t.ok(r[0] is r[1], f'outcomes differ: {r}')
    else:
        t.ok(np.array_equal(r[0], r[1]), f'masks differ: {r[0].tolist()} and {r[1].tolist()}')


@case('P17', weight=2)
def pairwise(t):
    d = t.choice([1, 1, 2])
    X = [t.series(1, 5, d=d) for _ in range(t.integers(1, 3))]
    Y = [t.series(1, 5, d=d) for _ in range(t.integers(1, 3))] if t.coin(.6) else None
    A = to_time_series_dataset(X)
    B = None if Y is None else to_time_series_dataset(Y)
    k = t.choice(['cdist_dtw', 'cdist_frechet', 'cdist_soft_dtw', 'cdist_gak', 'cdist_soft_dtw_normalized'])
    kw = {}
    if 'gak' in k:
        kw = dict(sigma=t.choice([1., 2.]))
    elif 'soft' in k:
        kw = dict(gamma=t.choice([.5, 1.]))
    elif t.coin(.5):
        kw = dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(0, 3))
    _three(t, getattr(M, k), [A] if B is None else [A, B], kw, tol=1e-6)


@case('P17', weight=1)
def containers(t):
    d = t.choice([1, 2])
    x = t.series(1, 6, d=d)
    z = np.vstack([x, np.full((t.integers(0, 3), d), np.nan)])
    k = t.choice(['to_time_series', 'ts_size', 'dataset'])
    if k == 'to_time_series':
        _three(t, to_time_series, [z], dict(remove_nans=t.coin()))
    elif k == 'ts_size':
        _three(t, ts_size, [z], {})
    else:
        _three(t, to_time_series_dataset, [np.stack([z, np.vstack([x[:1], np.full((len(z) - 1, d), np.nan)])])], {})


@case('P17', weight=1)
def wrong_inputs(t):
    """features or sizes that do not match are rejected in the same way"""
    x, y = t.values((t.integers(1, 4), 2), 'gauss'), t.values((t.integers(1, 4), t.choice([1, 3])), 'gauss')
    k = t.choice(['dtw', 'dtw_path', 'frechet', 'frechet_path', 'lcss', 'lcss_path', 'dtw_subsequence_path', 'subsequence_cost_matrix', 'limited',
                  'cdist_dtw', 'cdist_frechet', 'cdist_soft_dtw', 'gak', 'soft_dtw'])
    if not k.startswith('lcss') and k in ('dtw', 'dtw_path', 'frechet', 'frechet_path') and t.coin():
        y = np.zeros((0, 2)) if t.coin() else np.full((2, 2), np.nan)
    t.inp(function=k, s1=x, s2=y)
    f = (lambda a, b: M.dtw_limited_warping_length(a, b, 5)) if k == 'limited' else getattr(M, k)
    r = []
    for m in ('numpy', 'pytorch'):
        try:
            a, b = (torch.tensor(v) if m == 'pytorch' else v for v in (x, y))
            f(*((a[None], b[None]) if k.startswith('cdist') else (a, b)))
            r.append(None)
        except Exception as e:
            r.append(type(e))
    t.ok(None not in r, f'{k} accepted incompatible series: {r}')
    if k not in ('gak', 'soft_dtw'):
        t.ok(r[0] is r[1], f'{k}: outcomes differ between backends: {r}')
