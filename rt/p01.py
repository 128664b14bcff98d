from .common import *
from tslearn.metrics import dtw, dtw_path, dtw_path_from_metric
import tslearn.metrics as M


def _value(t, be):
    x = t.series(1, 9)
    y = t.series(1, 9, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, backend=be, **c)
    if mask == 'warn':
        t.raises(RuntimeWarning, lambda: dtw(ax, ay, **c), 'infeasible / ambiguous constraint')
        return
    exp = O.dtw(x, y, mask)
    t.close(dtw(ax, ay, **c), exp, 'dtw value')
    p, d = dtw_path(ax, ay, **c)
    t.close(d, exp, 'dtw_path distance')
    be_kw = t.choice([None, be])
    t.close(dtw(ax, ay, be=be_kw, **c), exp, 'dtw value (explicit backend)')


@case('P01', weight=8)
def dtw_value_numpy(t):
    _value(t, 'numpy')


@case('P01', weight=4)
def dtw_value_torch(t):
    _value(t, 'torch')


@case('P01', weight=3)
def dtw_vs_path_enumeration(t):
    x = t.series(1, 5)
    y = t.series(1, 5, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    t.inp(x=x, y=y, **c)
    b = O.brute(O.cost_matrix(x, y), mask)
    t.close(dtw(x, y, **c), math.sqrt(b), 'dtw against explicit path enumeration')


@case('P01', weight=2)
def dtw_long(t):
    n, m = t.choice([(40, 40), (70, 33), (28, 90), (130, 128), (1, 60), (55, 1)])
    d = t.choice([1, 2, 5])
    x, y = t.values((n, d)), t.values((m, d))
    c = constraint(t, n, m)
    mask = omask(n, m, c)
    if mask == 'warn':
        raise Skip
    be = backends(t)
    t.inp(x=x, y=y, backend=be, **c)
    exp = O.dtw(x, y, mask)
    t.close(dtw(to_backend(t, x, be), to_backend(t, y, be), **c), exp, 'dtw value', rtol=1e-6, atol=1e-5)


@case('P01', weight=3)
def ground_metric(t):
    x = t.series(1, 8)
    y = t.series(1, 8, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    k = t.choice(['precomputed', 'cityblock', 'sqeuclidean', 'euclidean', 'callable', 'chebyshev'])
    fs = dict(cityblock=lambda a, b: sum(abs(p - q) for p, q in zip(a, b)), sqeuclidean=O.sq,
              euclidean=lambda a, b: math.sqrt(O.sq(a, b)), callable=lambda a, b: abs(a[0] - 2 * b[0]) + .5,
              chebyshev=lambda a, b: max(abs(p - q) for p, q in zip(a, b)))
    if k == 'precomputed':
        D = np.abs(t.values((len(x), len(y))))
        if t.coin(.3):
            D = t.values((len(x), len(y)))           # negative costs are legitimate ground distances
        D0 = D.copy()
        Din = np.asfortranarray(D) if t.coin() else D
        t.inp(D=Din, metric=k, **c)
        p, v = dtw_path_from_metric(Din, metric=k, **c)
        t.close(D, D0, 'precomputed matrix left unchanged')
    else:
        D = O.cost_matrix(x, y, fs[k])
        t.inp(x=x, y=y, metric=k, **c)
        p, v = dtw_path_from_metric(t.layout(x), t.layout(y), metric=(fs[k] if k == 'callable' else k), **c)
    t.close(v, O.acc(D, mask)[-1][-1], 'dtw_path_from_metric value')


@case('P01', weight=2)
def ground_metric_torch(t):
    x = t.series(1, 7)
    y = t.series(1, 7, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    k = t.choice(['precomputed', 'sqeuclidean', 'euclidean'])
    if k == 'precomputed':
        D = np.abs(t.values((len(x), len(y))))
        t.inp(D=D, metric=k, **c)
        p, v = dtw_path_from_metric(torch.tensor(D), metric=k, be='torch', **c)
    else:
        D = O.cost_matrix(x, y, O.sq if k == 'sqeuclidean' else lambda a, b: math.sqrt(O.sq(a, b)))
        t.inp(x=x, y=y, metric=k, **c)
        p, v = dtw_path_from_metric(torch.tensor(x), torch.tensor(y), metric=k, be='torch', **c)
    t.close(v, O.acc(D, mask)[-1][-1], 'dtw_path_from_metric value (torch)')


@case('P01', weight=2)
def accumulated_matrix(t):
    x = t.series(1, 8)
    y = t.series(1, 8, d=x.shape[1])
    mask = t.rng.random((len(x), len(y))) < t.choice([1., .8, .5])
    be = backends(t)
    t.inp(x=x, y=y, mask=mask, backend=be)
    m = mask if be == 'numpy' else torch.tensor(mask)
    r = M.dtw_accumulated_matrix(to_backend(t, x, be), to_backend(t, y, be), m)
    t.close(r, O.acc(O.cost_matrix(x, y), mask), 'accumulated cost matrix')


@case('P01')
def properties(t):
    x = t.series(1, 10)
    y = t.series(1, 10, d=x.shape[1])
    t.inp(x=x, y=y)
    t.close(dtw(x, x), 0., 'dtw(x, x)')
    t.close(dtw(x, y), dtw(y, x), 'symmetry')
    if len(x) == len(y):
        t.ok(dtw(x, y) <= np.sqrt(((x - y) ** 2).sum()) + 1e-9, 'dtw exceeds the Euclidean distance')
    last = None
    for r in range(max(len(x), len(y))):
        v = dtw(x, y, global_constraint='sakoe_chiba', sakoe_chiba_radius=r)
        t.ok(last is None or v <= last + 1e-9, f'dtw increases when the radius grows to {r}')
        last = v
    t.close(last, dtw(x, y), 'large radius is unconstrained')


@case('P01')
def invalid_inputs(t):
    x = t.series(1, 6)
    t.inp(x=x)
    bad = np.full((3, x.shape[1]), np.nan)
    t.raises(ValueError, lambda: dtw(x, bad), 'all-nan series')
    t.raises(ValueError, lambda: dtw(bad, x), 'all-nan series')
    t.raises(ValueError, lambda: dtw(x, np.zeros((4, x.shape[1] + 1))), 'different dimensions')
    t.raises(ValueError, lambda: dtw_path(x, np.zeros((4, x.shape[1] + 1))), 'different dimensions')
    t.raises(ValueError, lambda: dtw_path(bad, x), 'all-nan series')
