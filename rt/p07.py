from .common import *
import tslearn.metrics as M
from tslearn.metrics import gak, unnormalized_gak, cdist_gak, sigma_gak


def _pair(t, lo=1, hi=7):
    x = t.series(lo, hi, kind=t.choice(['int', 'gauss', 'half', 'walk', 'const']))
    y = t.series(lo, hi, d=x.shape[1], kind=t.choice(['int', 'gauss', 'half', 'walk']))
    return x, y


@case('P07', weight=8)
def unnormalized(t):
    x, y = _pair(t)
    s = t.choice([1., .5, 2., 3., 10.])
    be = backends(t)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, sigma=s, backend=be)
    t.close(unnormalized_gak(ax, ay, sigma=s), O.gak_unnorm(x, y, s), 'unnormalised GAK', rtol=1e-6, atol=1e-300)
    if len(x) < 5 and len(y) < 5:
        t.close(unnormalized_gak(ax, ay, sigma=s), O.gak_brute(x, y, s), 'sum over all alignments', rtol=1e-6, atol=1e-300)


@case('P07', weight=8)
def normalised(t):
    x, y = _pair(t)
    s = t.choice([1., .5, 2., 3., 10.])
    be = backends(t)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, sigma=s, backend=be)
    e = O.gak_unnorm(x, y, s) / math.sqrt(O.gak_unnorm(x, x, s) * O.gak_unnorm(y, y, s))
    r = gak(ax, ay, sigma=s)
    t.close(r, e, 'normalised GAK', rtol=1e-6, atol=1e-12)
    t.close(gak(ay, ax, sigma=s), r, 'symmetry', rtol=1e-9)
    t.close(gak(ax, ax, sigma=s), 1., 'gak(x, x)', rtol=1e-9)
    t.ok(0 <= float(r) <= 1 + 1e-9, f'gak = {float(r)} outside [0, 1]')


@case('P07', weight=5)
def pairwise(t):
    d = t.choice([1, 2])
    X = [t.series(1, 6, d=d, kind='gauss') for _ in range(t.integers(1, 4))]
    Y = [t.series(1, 6, d=d, kind='gauss') for _ in range(t.integers(1, 4))]
    s = t.choice([1., .5, 2., 3.])
    self_ = t.coin()
    Z = X if self_ else Y
    nj = t.choice([None, None, 2])
    t.inp(X=X, Y=None if self_ else Y, sigma=s, n_jobs=nj)
    u = O.gak_unnorm
    exp = [[u(a, b, s) / math.sqrt(u(a, a, s) * u(b, b, s)) for b in Z] for a in X]
    K = cdist_gak(X, None if self_ else Y, sigma=s, n_jobs=nj)
    t.close(K, exp, 'cdist_gak', rtol=1e-6, atol=1e-12)
    if self_:
        t.ok(np.linalg.eigvalsh((K + K.T) / 2).min() > -1e-6, 'kernel matrix is not positive semidefinite')


@case('P07')
def sigma_rule(t):
    """median pairwise distance of sampled time points times sqrt(length)"""
    X = np.array([t.values((5, 2), 'gauss') for _ in range(4)])
    t.inp(X=X)
    s = sigma_gak(X, n_samples=100, random_state=3)
    t.close(sigma_gak(X, n_samples=100, random_state=3), s, 'deterministic under a fixed seed')
    rs = np.random.RandomState(3)
    flat = X.reshape(-1, 2)
    idx = rs.choice(len(flat), size=100, replace=True)
    P = flat[idx]
    ds = [math.sqrt(O.sq(P[i], P[j])) for i in range(100) for j in range(i + 1, 100)]
    t.close(s, np.median(ds) * math.sqrt(5), 'sigma_gak', rtol=1e-6)
    t.close(M.gamma_soft_dtw(X, n_samples=100, random_state=3), 2 * s ** 2, 'gamma_soft_dtw', rtol=1e-9)


@case('P07', maxrounds=4)
def zero_sigma(t):
    x, y = _pair(t)
    t.inp(x=x, y=y)
    for f in (gak, unnormalized_gak):
        t.raises(ZeroDivisionError, lambda: f(x, y, sigma=0.), 'sigma = 0')
    t.raises(ZeroDivisionError, lambda: cdist_gak([x, y], sigma=0.), 'sigma = 0')
