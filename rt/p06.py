from .common import *
import tslearn.metrics as M
from tslearn.metrics import soft_dtw, soft_dtw_alignment, cdist_soft_dtw, cdist_soft_dtw_normalized, soft_dtw_normalized


def _pair(t, lo=1, hi=8):
    x = t.series(lo, hi, kind=t.choice(['int', 'gauss', 'half', 'walk']))
    y = t.series(lo, hi, d=x.shape[1], kind=t.choice(['int', 'gauss', 'half', 'walk']))
    return x, y


def _g(t):
    return t.choice([1., .5, 2., 5., .1, .03, 10., 100.])


def _masked(t, D, c):
    m = omask(len(D), len(D[0]), c)
    if m == 'warn':
        raise Skip
    if not feas(m):
        raise Skip
    return [[D[i][j] if m[i][j] else O.INF for j in range(len(D[0]))] for i in range(len(D))], m


@case('P06', weight=8)
def soft_value(t):
    x, y = _pair(t)
    g = _g(t)
    c = constraint(t, len(x), len(y)) if t.coin(.5) else {}
    D, m = _masked(t, O.cost_matrix(x, y), c)
    be = backends(t)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, gamma=g, backend=be, **c)
    exp = O.softdtw(D, g)
    t.close(soft_dtw(ax, ay, gamma=g, **c), exp, 'soft-DTW value', rtol=1e-6, atol=1e-6)
    t.ok(exp <= O.acc(D)[-1][-1] + 1e-9, 'soft-DTW exceeds DTW')


@case('P06', weight=3)
def soft_enumeration(t):
    x, y = _pair(t, 1, 4)
    g = t.choice([1., .5, 3.])
    t.inp(x=x, y=y, gamma=g)
    t.close(soft_dtw(x, y, gamma=g), O.softdtw_brute(O.cost_matrix(x, y), g), 'soft-DTW against explicit enumeration of alignments', rtol=1e-6, atol=1e-6)


@case('P06', weight=3)
def long_small_gamma(t):
    n, m = t.choice([(30, 30), (40, 25), (20, 50)])
    x, y = t.values((n, 1), 'walk'), t.values((m, 1), 'walk')
    g = t.choice([.01, .1, 1., 50.])
    be = t.choice(['numpy', 'numpy', 'torch'])
    t.inp(x=x, y=y, gamma=g, backend=be)
    ax, ay = to_backend(t, x, be), to_backend(t, y, be)
    t.close(soft_dtw(ax, ay, gamma=g), O.softdtw(O.cost_matrix(x, y), g), 'soft-DTW value', rtol=1e-6, atol=1e-5)


@case('P06', weight=5)
def alignment(t):
    x, y = _pair(t)
    g = _g(t)
    c = constraint(t, len(x), len(y)) if t.coin(.4) else {}
    D, m = _masked(t, O.cost_matrix(x, y), c)
    be = backends(t)
    ax, ay = to_backend(t, x, be), to_backend(t, y, be)
    t.inp(x=ax, y=ay, gamma=g, backend=be, **c)
    E, v = soft_dtw_alignment(ax, ay, gamma=g, **c)
    t.close(v, O.softdtw(D, g), 'soft_dtw_alignment value', rtol=1e-6, atol=1e-6)
    t.close(E, O.softdtw_expected(D, g), 'soft alignment matrix', rtol=1e-5, atol=1e-6)


@case('P06', weight=3)
def normalized(t):
    x, y = _pair(t)
    g = _g(t)
    c = t.choice([{}, {}, dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=2)])
    D, m = _masked(t, O.cost_matrix(x, y), c)
    Dx, _ = _masked(t, O.cost_matrix(x, x), c)
    Dy, _ = _masked(t, O.cost_matrix(y, y), c)
    be = backends(t)
    ax, ay = to_backend(t, x, be), to_backend(t, y, be)
    t.inp(x=ax, y=ay, gamma=g, backend=be, **c)
    exp = O.softdtw(D, g) - .5 * (O.softdtw(Dx, g) + O.softdtw(Dy, g))
    r = soft_dtw_normalized(ax, ay, gamma=g, **c)
    t.close(r, exp, 'soft-DTW divergence', rtol=1e-6, atol=1e-5)
    t.close(soft_dtw_normalized(ay, ax, gamma=g, **c), exp, 'symmetry', rtol=1e-6, atol=1e-5)
    t.close(soft_dtw_normalized(ax, ax, gamma=g, **c), 0., 'divergence of identical series', atol=1e-5)


@case('P06', weight=3)
def pairwise(t):
    d = t.choice([1, 2])
    X = [t.series(1, 6, d=d, kind='gauss') for _ in range(t.integers(1, 4))]
    Y = [t.series(1, 6, d=d, kind='gauss') for _ in range(t.integers(1, 3))]
    g = _g(t)
    self_ = t.coin()
    be = t.choice(['numpy', 'numpy', 'torch'])
    Z = X if self_ else Y
    nj = t.choice([None, 2])
    t.inp(X=X, Y=None if self_ else Y, gamma=g, n_jobs=nj)
    sd = lambda a, b: O.softdtw(O.cost_matrix(a, b), g)
    exp = [[sd(a, b) for b in Z] for a in X]
    t.close(cdist_soft_dtw(X, None if self_ else Y, gamma=g, n_jobs=nj), exp, 'cdist_soft_dtw', rtol=1e-6, atol=1e-5)
    exp = [[sd(a, b) - .5 * (sd(a, a) + sd(b, b)) for b in Z] for a in X]
    t.close(cdist_soft_dtw_normalized(X, None if self_ else Y, gamma=g, n_jobs=nj), exp, 'cdist_soft_dtw_normalized', rtol=1e-6, atol=1e-5)


@case('P06', weight=3)
def class_gradients(t):
    x, y = _pair(t, 1, 6)
    g = t.choice([1., .5, 2., .2])
    be = t.choice(['numpy', 'numpy', 'torch', 'torchcb'])
    ax, ay = to_backend(t, x, be[:5]), to_backend(t, y, be[:5])
    cb = be == 'torchcb'
    t.inp(x=ax, y=ay, gamma=g, backend=be)
    sq = M.SquaredEuclidean(ax, ay, compute_with_backend=cb)
    D = O.cost_matrix(x, y)
    t.close(sq.compute(), D, 'squared distances', atol=1e-6)
    s = M.SoftDTW(sq, gamma=g, compute_with_backend=cb)
    t.close(s.compute(), O.softdtw(D, g), 'SoftDTW.compute', rtol=1e-6, atol=1e-6)
    E = s.grad()
    Eexp = np.array(O.softdtw_expected(D, g))
    t.close(E, Eexp, 'SoftDTW.grad', rtol=1e-5, atol=1e-6)
    G = sq.jacobian_product(E)
    gexp = [[sum(2 * Eexp[i][j] * (x[i][k] - y[j][k]) for j in range(len(y))) for k in range(x.shape[1])] for i in range(len(x))]
    t.close(G, gexp, 'jacobian product', rtol=1e-5, atol=1e-5)


@case('P06', weight=2)
def torch_loss(t):
    if torch is None:
        raise Skip
    b, n, m, d = t.integers(1, 3), t.integers(1, 5), t.integers(1, 5), t.choice([1, 2])
    X, Y = t.values((b, n, d), 'gauss'), t.values((b, m, d), 'gauss')
    g = t.choice([1., .5, 2.])
    norm = t.coin(.4)
    c = {}
    if t.coin(.3):
        c = dict(global_constraint='sakoe_chiba', sakoe_chiba_radius=t.integers(0, 3))
    t.inp(X=X, Y=Y, gamma=g, normalize=norm, **c)
    x = torch.tensor(X, requires_grad=True)
    y = torch.tensor(Y)
    loss = M.SoftDTWLossPyTorch(gamma=g, normalize=norm, **c)(x, y)

    def val(a, b2):
        D, _ = _masked(t, O.cost_matrix(a, b2), c)
        return O.softdtw(D, g)

    exp = [val(X[k], Y[k]) - (.5 * (val(X[k], X[k]) + val(Y[k], Y[k])) if norm else 0) for k in range(b)]
    t.close(loss.reshape(-1), exp, 'SoftDTWLossPyTorch forward', rtol=1e-4, atol=1e-4)
    w = np.arange(1., b + 1)
    (loss.reshape(-1) * torch.tensor(w)).sum().backward()

    def jac(a, b2):
        D, _ = _masked(t, O.cost_matrix(a, b2), c)
        E = O.softdtw_expected(D, g)
        return np.array([[sum(2 * E[i][j] * (a[i][k] - b2[j][k]) for j in range(len(b2))) for k in range(d)] for i in range(len(a))])

    G = []
    for k in range(b):
        gk = jac(X[k], Y[k])
        if norm:
            gk = gk - jac(X[k], X[k])   # x appears twice in the symmetric self term
        G.append(w[k] * gk)
    t.close(x.grad, np.array(G), 'SoftDTWLossPyTorch gradient', rtol=2e-3, atol=2e-3)


@case('P06', maxrounds=4)
def gamma_zero_cdist(t):
    X = [t.series(1, 6, d=1) for _ in range(2)]
    X[1] = X[1] + 1.5
    t.inp(X=X)
    e = O.dtw(X[0], X[1]) ** 2
    t.close(soft_dtw(X[0], X[1], gamma=0.), e, 'soft_dtw, gamma=0')
    if e < 1e-9 or abs(e - 1) < 1e-9:
        raise Skip
    t.close(cdist_soft_dtw(X, gamma=0.)[0, 1], e, 'cdist_soft_dtw, gamma=0 (squared DTW limit)', key='cdist_soft_dtw_gamma0')
