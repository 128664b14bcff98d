from .common import *
import tslearn.metrics as M
from tslearn.metrics import dtw_path, dtw_path_from_metric, frechet_path, frechet_path_from_metric


def norm(p):
    return [tuple(int(v) for v in q) for q in p]


@case('P02', weight=6)
def dtw_paths(t):
    x = t.series(1, 9)
    y = t.series(1, 9, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn' or not feas(mask):
        raise Skip
    be = backends(t)
    t.inp(x=x, y=y, backend=be, **c)
    p, d = dtw_path(to_backend(t, x, be), to_backend(t, y, be), **c)
    p = norm(p)
    t.ok(O.valid_path(p, len(x), len(y), mask), f'dtw_path returned an invalid path {p}')
    t.close(math.sqrt(path_cost(O.cost_matrix(x, y), p)), d, 'cost of the returned dtw path')


@case('P02', weight=5)
def frechet_paths(t):
    x = t.series(1, 9)
    y = t.series(1, 9, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn' or not feas(mask):
        raise Skip
    be = backends(t)
    t.inp(x=x, y=y, backend=be, **c)
    p, d = frechet_path(to_backend(t, x, be), to_backend(t, y, be), **c)
    p = norm(p)
    t.ok(O.valid_path(p, len(x), len(y), mask), f'frechet_path returned an invalid path {p}')
    D = O.cost_matrix(x, y)
    t.close(math.sqrt(max(D[i][j] for i, j in p)), d, 'largest distance along the returned frechet path')


@case('P02', weight=4)
def metric_paths(t):
    n, m = t.integers(1, 8), t.integers(1, 8)
    D = np.abs(t.values((n, m), t.choice(['int', 'gauss', 'half'])))
    c = constraint(t, n, m)
    mask = omask(n, m, c)
    if mask == 'warn' or not feas(mask):
        raise Skip
    be = backends(t)
    Din = D.copy() if be == 'numpy' else torch.tensor(D)
    which = t.choice(['dtw', 'frechet'])
    t.inp(D=D, backend=be, which=which, **c)
    if which == 'dtw':
        p, v = dtw_path_from_metric(Din, metric='precomputed', be=be, **c)
        agg = sum
    else:
        p, v = frechet_path_from_metric(Din, metric='precomputed', be=be, **c)
        agg = max
    p = norm(p)
    t.ok(O.valid_path(p, n, m, mask), f'{which}_path_from_metric returned an invalid path {p}')
    t.close(agg(D[i][j] for i, j in p), v, f'cost of the returned {which} path')


@case('P02', weight=3)
def metric_paths_series(t):
    x = t.series(1, 8)
    y = t.series(1, 8, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn' or not feas(mask):
        raise Skip
    f = lambda a, b: float(np.abs(np.asarray(a) - np.asarray(b)).sum())
    which = t.choice(['dtw', 'frechet'])
    t.inp(x=x, y=y, which=which, **c)
    fn, agg = (dtw_path_from_metric, sum) if which == 'dtw' else (frechet_path_from_metric, max)
    p, v = fn(t.layout(x), t.layout(y), metric=t.choice(['cityblock', f]), **c)
    p = norm(p)
    D = O.cost_matrix(x, y, f)
    t.ok(O.valid_path(p, len(x), len(y), mask), f'invalid path {p}')
    t.close(agg(D[i][j] for i, j in p), v, 'cost of the returned path')


@case('P02', weight=4)
def subsequence_paths(t):
    x = t.series(1, 5)
    y = t.series(len(x), 10, d=x.shape[1])
    be = backends(t)
    t.inp(sub=x, long=y, backend=be)
    p, d = M.dtw_subsequence_path(to_backend(t, x, be), to_backend(t, y, be))
    p = norm(p)
    a, b = p[0][1], p[-1][1]
    q = [(i, j - a) for i, j in p]
    t.ok(0 <= a <= b < len(y) and O.valid_path(q, len(x), b - a + 1), f'invalid subsequence path {p}')
    t.close(math.sqrt(path_cost(O.cost_matrix(x, y), p)), d, 'cost of the subsequence path')


@case('P02', weight=3)
def subsequence_path_from_cost(t):
    x = t.series(1, 5)
    y = t.series(len(x), 9, d=x.shape[1])
    be = backends(t)
    S = O.subseq_cost(O.cost_matrix(x, y))
    C = M.subsequence_cost_matrix(to_backend(t, x, be), to_backend(t, y, be))
    t.inp(sub=x, long=y, backend=be)
    t.close(C, S, 'subsequence accumulated costs')
    for e in range(len(y)):
        p = norm(M.subsequence_path(C, e))
        a, b = p[0][1], p[-1][1]
        q = [(i, j - a) for i, j in p]
        t.ok(b == e and 0 <= a <= b and O.valid_path(q, len(x), b - a + 1), f'invalid subsequence path {p} for end {e}')
        t.close(path_cost(O.cost_matrix(x, y), p), S[-1][e], f'cost of the subsequence path ending at {e}')


@case('P02', weight=4)
def limited_paths(t):
    x = t.series(1, 6)
    y = t.series(1, 6, d=x.shape[1])
    L = t.integers(max(len(x), len(y)), len(x) + len(y) + 1)
    be = backends(t)
    t.inp(x=x, y=y, max_length=L, backend=be)
    p, d = M.dtw_path_limited_warping_length(to_backend(t, x, be), to_backend(t, y, be), L)
    p = norm(p)
    t.ok(O.valid_path(p, len(x), len(y)), f'invalid path {p}')
    t.ok(len(p) <= L, f'path of {len(p)} steps exceeds the limit {L}')
    t.close(math.sqrt(path_cost(O.cost_matrix(x, y), p)), d, 'cost of the limited-length path')
