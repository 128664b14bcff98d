from .common import *
from statistics import NormalDist
import tslearn.piecewise as P

ND = NormalDist()


def _ds(t, div=None, n=None):
    d = t.choice([1, 1, 2, 3])
    nseg = t.integers(1, 5)
    seg = t.integers(1, 4)
    rem = 0 if (t.coin(.6) if div is None else div) else t.integers(0, nseg - 1)
    n = n or t.integers(2, 4)
    X = np.array([t.values((nseg * seg + rem, d)) for _ in range(n)])
    if t.coin(.2):
        X[:, :, t.integers(0, d - 1)] = t.choice([.1, .7, 1e-3, 3., 0.])
    return X, nseg, seg, d


def _means(x, nseg):
    L = len(x) // nseg
    return np.array([[math.fsum(x[s * L:(s + 1) * L, k]) / L for k in range(x.shape[1])] for s in range(nseg)])


def _bp(n, scale=1.):
    return [scale * ND.inv_cdf(a / n) for a in range(1, n)]


def _mid(n, scale=1.):
    return [scale * ND.inv_cdf(a / (2 * n)) for a in range(1, 2 * n, 2)]


def _check_symbols(t, S, V, bp, msg):
    """symbol of v is the number of break points <= v (values within rounding of a break point may go either way)"""
    S, V = np.asarray(S), np.asarray(V)
    t.same(S.shape, V.shape, msg + ': shape')
    for s, v in zip(S.ravel().tolist(), V.ravel().tolist()):
        lo, hi = sum(b <= v - 1e-9 for b in bp), sum(b <= v + 1e-9 for b in bp)
        t.ok(lo <= s <= hi, f'{msg}: symbol {s} of value {v}, break points {bp}')


def _eucl(a, b):
    return math.sqrt(math.fsum(((a - b) ** 2).ravel().tolist()))


@case('P13', weight=6)
def paa(t):
    X, nseg, seg, d = _ds(t)
    sz = X.shape[1]
    m = P.PiecewiseAggregateApproximation(n_segments=nseg)
    t.inp(X=X, n_segments=nseg)
    before = X.copy()
    R = m.fit_transform(X)
    E = np.array([_means(x, nseg) for x in X])
    t.close(R, E, 'PAA', rtol=1e-9, atol=1e-9)
    t.close(m.transform(X[:1]), E[:1], 'PAA of one series', rtol=1e-9, atol=1e-9)
    inv = m.inverse_transform(R)
    I = np.zeros_like(X)
    for s in range(nseg):
        I[:, s * seg:(s + 1) * seg] = E[:, s][:, None]
    t.close(inv[:, :nseg * seg], I[:, :nseg * seg], 'PAA inverse', rtol=1e-9, atol=1e-9)
    t.ok(np.isfinite(inv).all() and inv.shape == X.shape, 'PAA inverse shape')
    t.close(m.inverse_transform(R), inv, 'PAA inverse, repeated call', rtol=0, atol=0)
    dd = m.distance(X[0], X[1])
    t.close(dd, _eucl(E[0], E[1]) * math.sqrt(sz / nseg), 'PAA distance', rtol=1e-9, atol=1e-9)
    t.close(m.distance_paa(R[0], R[1]), dd, 'distance_paa', rtol=1e-9, atol=1e-9)
    t.close(m.distance(X[1], X[0]), dd, 'PAA distance symmetry', rtol=1e-9, atol=1e-9)
    if sz % nseg == 0:
        t.ok(dd <= _eucl(X[0], X[1]) * (1 + 1e-9) + 1e-9, 'PAA distance exceeds the Euclidean distance')
    t.ok(np.array_equal(X, before), 'input modified')


@case('P13', weight=2)
def paa_variable_length(t):
    d, nseg = t.choice([1, 2]), t.integers(1, 4)
    L = [nseg * t.integers(1, 4) + t.integers(0, nseg - 1) for _ in range(t.integers(1, 4))]
    X = np.full((len(L), max(L), d), np.nan)
    for i, l in enumerate(L):
        X[i, :l] = t.values((l, d))
    t.inp(X=X, n_segments=nseg)
    E = np.array([_means(X[i, :l], nseg) for i, l in enumerate(L)])
    t.close(P.PiecewiseAggregateApproximation(n_segments=nseg).fit_transform(X), E, 'PAA of series of different lengths', rtol=1e-9, atol=1e-9)
    _check_symbols(t, P.SymbolicAggregateApproximation(n_segments=nseg, alphabet_size_avg=5).fit_transform(X), E, _bp(5), 'SAX symbols, different lengths')


def _scaled(t, X, scale):
    if not scale:
        return X, np.zeros(X.shape[2]), np.ones(X.shape[2])
    mu = np.array([math.fsum(X[:, :, k].ravel()) / X[:, :, k].size for k in range(X.shape[2])])
    sd = np.array([math.sqrt(math.fsum(((X[:, :, k] - mu[k]) ** 2).ravel()) / X[:, :, k].size) for k in range(X.shape[2])])
    for k in range(X.shape[2]):
        if X[:, :, k].max() == X[:, :, k].min():
            sd[k] = 1.
    if np.any(sd < 1e-9):
        raise Skip
    return (X - mu) / sd, mu, sd


@case('P13', weight=6)
def sax(t):
    X, nseg, seg, d = _ds(t)
    sz = X.shape[1]
    a = t.integers(2, 9)
    scale = t.coin(.3)
    Z, mu, sd = _scaled(t, X, scale)
    t.inp(X=X, n_segments=nseg, alphabet=a, scale=scale)
    m = P.SymbolicAggregateApproximation(n_segments=nseg, alphabet_size_avg=a, scale=scale)
    S = m.fit_transform(X)
    bp, mid = _bp(a), _mid(a)
    E = np.array([_means(z, nseg) for z in Z])
    _check_symbols(t, S, E, bp, 'SAX symbols')
    t.ok(np.array_equal(m.transform(X), S), 'transform after fit_transform')
    t.ok(np.array_equal(m.transform(X[1:2]), S[1:2]), 'transform of one series')
    inv = m.inverse_transform(S)
    t.same(inv.shape, X.shape, 'SAX inverse shape')
    for i in range(len(X)):
        for s in range(nseg):
            for k in range(d):
                t.close(inv[i, s * seg:(s + 1) * seg, k], np.full(seg, mid[S[i, s, k]] * sd[k] + mu[k]), 'SAX inverse', rtol=1e-7, atol=1e-7)
    acc = 0.
    for s in range(nseg):
        for k in range(d):
            p, q = sorted((int(S[0, s, k]), int(S[1, s, k])))
            if q - p > 1:
                acc += (bp[q - 1] - bp[p]) ** 2
    exp = math.sqrt(acc * sz / nseg)
    t.close(m.distance_sax(S[0], S[1]), exp, 'distance_sax', rtol=1e-7, atol=1e-9)
    dd = m.distance(X[0], X[1])
    t.close(dd, exp, 'SAX distance', rtol=1e-7, atol=1e-9)
    t.close(m.distance(X[1], X[0]), dd, 'SAX distance symmetry', rtol=1e-9, atol=1e-9)
    t.close(m.distance(X[0], X[0]), 0., 'SAX distance to itself')
    if sz % nseg == 0:
        t.ok(dd <= _eucl(Z[0], Z[1]) * (1 + 1e-7) + 1e-7, 'SAX distance exceeds the Euclidean distance')


def _slope(y):
    n = len(y)
    tm, ym = (n - 1) / 2, math.fsum(y) / n
    den = math.fsum((i - tm) ** 2 for i in range(n))
    return math.fsum((i - tm) * (v - ym) for i, v in enumerate(y)) / den if den else 0.


@case('P13', weight=2, maxrounds=60)
def one_d_sax(t):
    X, nseg, seg, d = _ds(t)
    sz = X.shape[1]
    a, b = t.integers(2, 7), t.integers(2, 7)
    sig = t.choice([None, 1., .3])
    scale = t.coin(.3)
    Z, mu, sd = _scaled(t, X, scale)
    t.inp(X=X, n_segments=nseg, alphabet_avg=a, alphabet_slope=b, sigma_l=sig, scale=scale)
    m = P.OneD_SymbolicAggregateApproximation(n_segments=nseg, alphabet_size_avg=a, alphabet_size_slope=b, sigma_l=sig, scale=scale)
    S = m.fit_transform(X)
    t.same(S.shape, (len(X), nseg, 2 * d), '1d-SAX shape')
    sg = sig if sig is not None else math.sqrt(.03 / seg)
    _check_symbols(t, S[:, :, :d], np.array([_means(z, nseg) for z in Z]), _bp(a), '1d-SAX average symbols')
    SL = np.array([[[_slope(z[s * seg:(s + 1) * seg, k].tolist()) for k in range(d)] for s in range(nseg)] for z in Z])
    _check_symbols(t, S[:, :, d:], SL, _bp(b, sg), '1d-SAX slope symbols')
    t.ok(np.array_equal(m.transform(X), S), 'transform after fit_transform')
    am, sm = _mid(a), _mid(b, sg)
    rec = np.array([[[am[S[i, s, k]] + sm[S[i, s, d + k]] * (q - (seg - 1) / 2) for k in range(d)] for s in range(nseg) for q in range(seg)] for i in range(len(X))])
    inv = m.inverse_transform(S)
    t.same(inv.shape, X.shape, '1d-SAX inverse shape')
    t.close(inv[:, :nseg * seg], rec * sd + mu, '1d-SAX inverse', rtol=1e-7, atol=1e-7)
    exp = _eucl(rec[0], rec[1])
    dd = m.distance(X[0], X[1])
    t.close(dd, exp, '1d-SAX distance', rtol=1e-7, atol=1e-7)
    t.close(m.distance_1d_sax(S[0], S[1]), exp, 'distance_1d_sax', rtol=1e-7, atol=1e-7)
    t.close(m.distance(X[1], X[0]), dd, '1d-SAX distance symmetry')
