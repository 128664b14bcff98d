from .common import *
import tslearn.metrics as M
from tslearn.metrics import sakoe_chiba_mask, itakura_mask, compute_mask


@case('P03', weight=5)
def sakoe(t):
    n, m = t.integers(1, 14), t.integers(1, 14)
    r = t.integers(0, 15)
    be = backends(t)
    t.inp(sz1=n, sz2=m, radius=r, backend=be)
    t.close(sakoe_chiba_mask(n, m, r, be=be), O.sakoe(n, m, r), 'sakoe_chiba_mask')
    if r == 1:
        t.close(sakoe_chiba_mask(n, m, be=be), O.sakoe(n, m, 1), 'default radius')


@case('P03', weight=6)
def itakura(t):
    n, m = t.integers(1, 16), t.integers(1, 16)
    s = t.choice([1., 1.1, 1.25, 1.5, 2., 2., 2.5, 3., 4., 6.4, 10.])
    be = backends(t)
    t.inp(sz1=n, sz2=m, max_slope=s, backend=be)
    exp = O.itakura(n, m, s)
    if exp is None:
        t.raises(RuntimeWarning, lambda: itakura_mask(n, m, s, be=be), 'unfeasible itakura mask')
        return
    t.close(itakura_mask(n, m, s, be=be), exp, 'itakura_mask')
    if s == 2.:
        t.close(itakura_mask(n, m, be=be), exp, 'default slope')


@case('P03', weight=3)
def itakura_int_slope(t):
    n, m, s = t.integers(1, 14), t.integers(1, 14), t.choice([1, 2, 3, 5])
    t.inp(sz1=n, sz2=m, max_slope=s)
    exp = O.itakura(n, m, s)
    if exp is None:
        t.raises(RuntimeWarning, lambda: itakura_mask(n, m, s), 'unfeasible')
        return
    t.close(itakura_mask(n, m, s), exp, 'integer slope')


@case('P03', weight=5)
def selection(t):
    x = t.series(1, 9, d=1)
    y = t.series(1, 9, d=1)
    c = constraint(t, len(x), len(y))
    code = {None: 0, 'itakura': 1, 'sakoe_chiba': 2}[c.pop('global_constraint', None)]
    mask = O.mask_for(len(x), len(y), {0: None, 1: 'itakura', 2: 'sakoe_chiba'}[code], c.get('sakoe_chiba_radius'), c.get('itakura_max_slope'))
    be = backends(t)
    ints = t.coin()
    a, b = (len(x), len(y)) if ints else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(s1=a, s2=b, global_constraint=code, backend=be, **c)
    f = lambda: compute_mask(a, b, code, be=be, **c)
    if mask == 'warn':
        t.raises(RuntimeWarning, f, 'ambiguous or unfeasible constraint')
    else:
        t.close(f(), mask, 'compute_mask')


@case('P03', weight=2)
def both_constraints(t):
    x = t.series(2, 6, d=1)
    t.inp(x=x)
    t.raises(RuntimeWarning, lambda: M.dtw(x, x, sakoe_chiba_radius=1, itakura_max_slope=2.), 'both constraints without a choice')
    t.raises(RuntimeWarning, lambda: M.frechet(x, x, sakoe_chiba_radius=1, itakura_max_slope=2.), 'both constraints without a choice')


@case('P03', weight=2)
def transposition(t):
    n, m, r = t.integers(1, 12), t.integers(1, 12), t.integers(0, 6)
    t.inp(sz1=n, sz2=m, radius=r)
    t.close(tonp(sakoe_chiba_mask(n, m, r)).T, sakoe_chiba_mask(m, n, r), 'transposed sakoe-chiba mask')
    a = sakoe_chiba_mask(n, m, r)
    t.ok(a[0, 0] and a[-1, -1], 'corners inside the band')


def _same(t, name, fn, x, y, c, exp):
    v = fn(x, y, **c)
    t.close(v, exp, f'{name} applies the requested constraint')


@case('P03', weight=5)
def constraint_reaches_metric(t):
    x = t.series(3, 9, kind='gauss')
    y = t.series(3, 9, d=x.shape[1], kind='gauss')
    c = constraint(t, len(x), len(y))
    mask = omask(len(x), len(y), c)
    if mask == 'warn':
        raise Skip
    t.inp(x=x, y=y, **c)
    ed, ef = O.dtw(x, y, mask), O.frechet(x, y, mask)
    _same(t, 'dtw', M.dtw, x, y, c, ed)
    _same(t, 'dtw_path', lambda a, b, **k: M.dtw_path(a, b, **k)[1], x, y, c, ed)
    _same(t, 'frechet', M.frechet, x, y, c, ef)
    _same(t, 'frechet_path', lambda a, b, **k: M.frechet_path(a, b, **k)[1], x, y, c, ef)
    _same(t, 'dtw_path_from_metric', lambda a, b, **k: math.sqrt(M.dtw_path_from_metric(a, b, metric='sqeuclidean', **k)[1]), x, y, c, ed)
    _same(t, 'frechet_path_from_metric', lambda a, b, **k: math.sqrt(M.frechet_path_from_metric(a, b, metric='sqeuclidean', **k)[1]), x, y, c, ef)
    _same(t, 'cdist_dtw', lambda a, b, **k: M.cdist_dtw([a], [b], **k)[0, 0], x, y, c, ed)
    _same(t, 'cdist_frechet', lambda a, b, **k: M.cdist_frechet([a], [b], **k)[0, 0], x, y, c, ef)
    eps = t.choice([.3, 1., 2.])
    ok = [[mask[i][j] and math.sqrt(O.sq(x[i], y[j])) <= eps for j in range(len(y))] for i in range(len(x))]
    t.close(M.lcss(x, y, eps=eps, **c), O.lcs_match(ok) / min(len(x), len(y)), 'lcss applies the requested constraint')
