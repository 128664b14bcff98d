from .common import *
import tslearn.metrics as M
from tslearn.metrics import frechet, frechet_path, frechet_path_from_metric


@case('P04', weight=7)
def value(t):
    x = t.series(1, 9)
    y = t.series(1, 9, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    be = backends(t)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, backend=be, **c)
    if mask == 'warn':
        t.raises(RuntimeWarning, lambda: frechet(ax, ay, **c), 'infeasible / ambiguous constraint')
        return
    exp = O.frechet(x, y, mask)
    t.close(frechet(ax, ay, **c), exp, 'frechet value')
    t.close(frechet_path(ax, ay, **c)[1], exp, 'frechet_path distance')
    t.close(frechet(ax, ay, be=be, **c), exp, 'frechet value (explicit backend)')


@case('P04', weight=3)
def enumeration(t):
    x = t.series(1, 5)
    y = t.series(1, 5, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    t.inp(x=x, y=y, **c)
    t.close(frechet(x, y, **c), math.sqrt(O.brute(O.cost_matrix(x, y), mask, agg=max)), 'frechet against path enumeration')


@case('P04', weight=3)
def from_metric(t):
    n, m = t.integers(1, 8), t.integers(1, 8)
    D = np.abs(t.values((n, m)))
    c = constraint(t, n, m)
    mask = omask(n, m, c)
    if mask == 'warn':
        raise Skip
    be = backends(t)
    t.inp(D=D, backend=be, **c)
    v = frechet_path_from_metric(D.copy() if be == 'numpy' else torch.tensor(D), metric='precomputed', be=be, **c)[1]
    t.close(v, O.acc(D, mask, comb=max)[-1][-1], 'precomputed frechet value')
    x, y = t.values((n, 2)), t.values((m, 2))
    t.inp(x=x, y=y, **c)
    v = frechet_path_from_metric(x, y, metric='cityblock', **c)[1]
    D = O.cost_matrix(x, y, lambda a, b: sum(abs(p - q) for p, q in zip(a, b)))
    t.close(v, O.acc(D, mask, comb=max)[-1][-1], 'frechet value for a named metric')


@case('P04', weight=3)
def laws(t):
    x = t.series(1, 9)
    y = t.series(1, 9, d=x.shape[1])
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    t.inp(x=x, y=y, **c)
    f, d = frechet(x, y, **c), M.dtw(x, y, **c)
    t.ok(f <= d + 1e-9, f'frechet {f} exceeds dtw {d}')
    t.close(frechet(x, x), 0., 'frechet(x, x)')
    t.close(frechet(x, y), frechet(y, x), 'symmetry')


@case('P04', weight=2)
def accumulated(t):
    x = t.series(1, 8)
    y = t.series(1, 8, d=x.shape[1])
    mask = t.rng.random((len(x), len(y))) < t.choice([1., .8, .5])
    be = backends(t)
    t.inp(x=x, y=y, mask=mask, backend=be)
    m = mask if be == 'numpy' else torch.tensor(mask)
    t.close(M.frechet_accumulated_matrix(to_backend(t, x, be), to_backend(t, y, be), m),
            O.acc(O.cost_matrix(x, y), mask, comb=max), 'accumulated matrix')


@case('P04')
def invalid(t):
    x = t.series(1, 6)
    t.inp(x=x)
    bad = np.full((3, x.shape[1]), np.nan)
    for f in (frechet, frechet_path):
        t.raises(ValueError, lambda: f(x, bad), 'all-nan series')
        t.raises(ValueError, lambda: f(bad, x), 'all-nan series')
        t.raises(ValueError, lambda: f(x, np.zeros((4, x.shape[1] + 1))), 'different dimensions')


@case('P04', weight=1)
def long(t):
    n, m = t.choice([(40, 40), (70, 33), (28, 90), (1, 60), (55, 1)])
    x, y = t.values((n, 2)), t.values((m, 2))
    be = backends(t)
    t.inp(x=x, y=y, backend=be)
    t.close(frechet(to_backend(t, x, be), to_backend(t, y, be)), O.frechet(x, y), 'frechet value', rtol=1e-6, atol=1e-5)
