from .common import *
from tslearn.forecasting import VARIMA, AutoVARIMA
from tslearn.utils import to_time_series_dataset


def _model(t, f, big=True):
    p, d, q = t.choice([(0, 0, 0), (1, 0, 0), (2, 0, 0), (3, 0, 0), (0, 1, 0), (1, 1, 0), (2, 1, 0), (0, 2, 0), (1, 2, 0), (2, 2, 0), (0, 3, 0), (0, 0, 1), (0, 0, 2), (1, 0, 2),
                        (1, 1, 1), (2, 1, 2), (1, 2, 1)])
    s = t.choice([None, None, None, 2, 3, 5])
    return p, d, q, t.coin(), s


def _sdiff(x, s):
    return x[s:] - x[:-s] if s else x


def _diff(x, d):
    for _ in range(d):
        x = x[1:] - x[:-1]
    return x


def _residuals(m, w, p, q, f):
    """errors of the one-step forecasts of the differenced series w, newest last"""
    st = max(p, q)
    e = [np.zeros(f) for _ in range(q)]
    for i in range(st, len(w)):
        r = w[i] - _step(m, w[:i], e, p, q, f)
        if q:
            e = e[1:] + [r]
    return e


def _step(m, w, e, p, q, f):
    v = np.array(m.intercept_, dtype=float).reshape(-1)
    v = v.copy() if len(v) else np.zeros(f)
    for k in range(p):
        for o in range(f):
            v[o] += sum(w[len(w) - 1 - k][i] * m.ar_coeffs_[k][i][o] for i in range(f))
    for k in range(q):
        for o in range(f):
            v[o] += sum(e[len(e) - 1 - k][i] * m.ma_coeffs_[k][i][o] for i in range(f))
    return v


def _forecast(m, x, p, d, q, s, n):
    """extend the series itself: forecast of the differenced series, then undo each difference by the definition"""
    f = x.shape[1]
    x = [np.array(v, dtype=float) for v in x]
    e = _residuals(m, _diff(_sdiff(np.array(x), s or 0), d), p, q, f)
    out = []
    for _ in range(n):
        y = _sdiff(np.array(x), s or 0)
        w = _diff(y, d)
        v = _step(m, w, e, p, q, f)
        # undo: w_t = sum_j (-1)^j C(d,j) y_{t-j}
        yt = v - sum(((-1) ** j * math.comb(d, j) * y[len(y) - j] for j in range(1, d + 1)), np.zeros(f))
        xt = yt + (x[len(x) - s] if s else 0)
        out.append(xt)
        x.append(xt)
        if q:
            e = e[1:] + [np.zeros(f)]
    return np.array(out)


def _data(t, need, f, n):
    X = []
    for _ in range(n):
        L = t.integers(need, need + 8)
        X.append(t.values((L, f), t.choice(['gauss', 'walk', 'big'])))
    return X


@case('P21', weight=3)
def forecasts(t):
    f = t.choice([1, 1, 2, 3])
    p, d, q, c, s = _model(t, f)
    need = p + q + d + 1 + (s or 0)
    X = _data(t, need + 2 * p * f + 2 * q * f + 2, f, t.integers(1, 3))
    A = to_time_series_dataset(X)
    n = t.integers(1, 5)
    t.inp(X=A, p=p, d=d, q=q, with_constant=c, seasonal_period=s, n=n)
    before = A.copy()
    m = VARIMA(p, d, q, with_constant=c, seasonal_period=s, max_iter=5)
    m.fit(A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'fit modified the series')
    t.same(m.ar_coeffs_.shape, (p, f, f), 'shape of ar_coeffs_')
    t.same(m.ma_coeffs_.shape, (q, f, f), 'shape of ma_coeffs_')
    E = [_forecast(m, x, p, d, q, s, n) for x in X]
    big = max(1., max(np.abs(e).max() for e in E), max(np.abs(x).max() for x in X))
    if not np.isfinite(big) or big > 1e6:
        raise Skip
    tol = dict(rtol=1e-6, atol=1e-6 * big)
    R = m.predict(n=n)
    t.close(R, np.array(E), 'predict(n) of the fitted series', **tol)
    t.close(m.predict(A, n=n), np.array(E), 'predict(X, n) of the fitted series', **tol)
    t.ok(np.array_equal(A, before, equal_nan=True), 'predict modified the series')
    t.ok(np.array_equal(m.predict(n=n), R), 'predict is not repeatable')
    t.close(m.predict(n=1), R[:, :1], 'one-step forecast is the first of the multi-step forecast', **tol)
    Y = _data(t, need, f, t.integers(1, 3))
    B = to_time_series_dataset(Y)
    t.inp(X=A, Y=B, p=p, d=d, q=q, with_constant=c, seasonal_period=s, n=n)
    b = B.copy()
    E2 = [_forecast(m, y, p, d, q, s, n) for y in Y]
    big2 = max(1., max(np.abs(e).max() for e in E2))
    if big2 > 1e6:
        raise Skip
    t.close(m.predict(B, n=n), np.array(E2), 'predict(Y, n) of new series', rtol=1e-6, atol=1e-6 * big2)
    t.ok(np.array_equal(B, b, equal_nan=True), 'predict modified the new series')
    if q == 0 and len({len(y) for y in Y}) == 1:
        Z = B
        for k in range(n):
            z = m.predict(Z, n=1)
            t.close(z[:, 0], np.array(E2)[:, k], f'iterated one-step forecast {k}', rtol=1e-5, atol=1e-5 * big2)
            Z = np.concatenate([Z, z], axis=1)
    t.ok(np.array_equal(m.fit_predict(A, n=n), R), 'fit_predict differs from fit then predict')


@case('P21', weight=2)
def least_squares(t):
    """without moving average the coefficients are the mean over series of the least-squares ones"""
    f = t.choice([1, 1, 2, 3])
    p, d, c, s = t.integers(0, 3), t.integers(0, 2), t.coin(), t.choice([None, 2, 4])
    L = p * f + p + d + (s or 0) + c + 4
    X = [t.values((t.integers(L, L + 6), f), 'gauss') for _ in range(t.integers(1, 3))]
    A = to_time_series_dataset(X)
    t.inp(X=A, p=p, d=d, with_constant=c, seasonal_period=s)
    m = VARIMA(p, d, 0, with_constant=c, seasonal_period=s).fit(A)
    C = []
    for x in X:
        w = _diff(_sdiff(x, s or 0), d)
        rows = [([1.] if c else []) + [w[u - k][i] for k in range(1, p + 1) for i in range(f)] for u in range(p, len(w))]
        Z = np.array(rows).reshape(len(w) - p, -1)
        C.append(np.linalg.lstsq(Z, w[p:], rcond=None)[0] if Z.shape[1] else np.zeros((0, f)))
    M = np.mean(C, axis=0)
    if c:
        t.close(m.intercept_, M[0], 'intercept_', rtol=1e-6, atol=1e-7)
    t.close(m.ar_coeffs_, M[c:].reshape(p, f, f), 'ar_coeffs_', rtol=1e-6, atol=1e-7)


@case('P21')
def polynomial(t):
    """a polynomial of degree < d (+ periodic part) is continued exactly"""
    d = t.integers(1, 3)
    s = t.choice([None, None, 2, 3])
    L = d + (s or 0) + 6
    co = [t.integers(-2, 2) for _ in range(d)]
    per = [float(t.integers(-3, 3)) for _ in range(s)] if s else [0.]
    g = lambda u: sum(a * u ** k for k, a in enumerate(co)) + per[u % len(per)]
    x = np.array([float(g(u)) for u in range(L)])
    n = t.integers(1, 4)
    t.inp(x=x, d=d, seasonal_period=s, n=n)
    m = VARIMA(0, d, 0, with_constant=False, seasonal_period=s).fit(x[None, :, None])
    e = np.array([float(g(u)) for u in range(L, L + n)])
    t.close(m.predict(n=n)[0, :, 0], e, 'continued polynomial', rtol=1e-8, atol=1e-6)


@case('P21', maxrounds=2)
def auto(t):
    n = t.integers(2, 4)
    X = [t.values((t.integers(20, 30), 1), t.choice(['gauss', 'walk'])) for _ in range(t.integers(1, 2))]
    A = to_time_series_dataset(X)
    s = t.choice([None, 3])
    t.inp(X=A, n=n, seasonal_period=s)
    before = A.copy()
    m = AutoVARIMA(max_p=1, max_q=1, max_d=1, max_iter=3, seasonal_period=s).fit(A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'fit modified the series')
    b = m.best_estimator_
    E = np.array([_forecast(b, x, b.p, b.d, b.q, s, n) for x in X])
    t.close(m.predict(n=n), E, 'AutoVARIMA forecasts are those of its selected model', rtol=1e-5, atol=1e-5)
    t.close(m.predict(A, n=n), E, 'AutoVARIMA forecasts of given series', rtol=1e-5, atol=1e-5)
    t.ok(np.array_equal(A, before, equal_nan=True), 'predict modified the series')
