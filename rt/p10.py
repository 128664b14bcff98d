from .common import *
from tslearn.metrics import lb_keogh, lb_envelope, dtw


def _env(x, r):
    n, d = x.shape
    lo = [[min(x[k][c] for k in range(max(0, i - r), min(n, i + r + 1))) for c in range(d)] for i in range(n)]
    hi = [[max(x[k][c] for k in range(max(0, i - r), min(n, i + r + 1))) for c in range(d)] for i in range(n)]
    return lo, hi


@case('P10', weight=8)
def envelope(t):
    x = t.series(1, 12)
    r = t.integers(0, len(x) + 1)
    be = backends(t)
    ax = to_backend(t, x, be)
    t.inp(x=ax, radius=r, backend=be)
    lo, hi = lb_envelope(ax, radius=r)
    elo, ehi = _env(x, r)
    t.close(lo, elo, 'lower envelope')
    t.close(hi, ehi, 'upper envelope')


@case('P10', weight=8)
def bound(t):
    n = t.integers(1, 12)
    x, y = t.series(d=1, sz=n), t.series(d=1, sz=n)
    r = t.integers(0, n)
    t.inp(x=x, y=y, radius=r)
    lo, hi = _env(y, r)
    exp = math.sqrt(sum(max(x[i][0] - hi[i][0], 0, lo[i][0] - x[i][0]) ** 2 for i in range(n)))
    v = lb_keogh(x, y, radius=r)
    t.close(v, exp, 'lb_keogh value')
    t.close(lb_keogh(x, envelope_candidate=lb_envelope(y, radius=r)), exp, 'lb_keogh from an envelope')
    dt = dtw(x, y, global_constraint='sakoe_chiba', sakoe_chiba_radius=r)
    t.close(dt, O.dtw(x, y, O.sakoe(n, n, r)), 'constrained DTW')
    t.ok(v <= dt + 1e-7, f'lb_keogh {v} > DTW {dt}')


@case('P10', weight=2)
def defaults(t):
    n = t.integers(1, 12)
    x, y = t.series(d=1, sz=n), t.series(d=1, sz=n)
    t.inp(x=x, y=y)
    v = lb_keogh(x, y)
    t.ok(v <= dtw(x, y, global_constraint='sakoe_chiba') + 1e-7, 'default radius: bound exceeds DTW')
    lo, hi = lb_envelope(y)
    elo, ehi = _env(y, 1)
    t.close(lo, elo, 'default radius')
    t.close(hi, ehi, 'default radius')
    if n > 1:
        t.raises(AssertionError, lambda: lb_keogh(np.hstack([x, x]), np.hstack([y, y])), 'multivariate input')
