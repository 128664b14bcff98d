"""Independent oracles, written from the property statements (pure Python)."""
import math
import itertools
import numpy as np

INF = float('inf')


def sq(a, b):
    return sum((float(x) - float(y)) ** 2 for x, y in zip(a, b))


def cost_matrix(x, y, f=sq):
    return [[f(a, b) for b in y] for a in x]


def acc(D, mask=None, comb=None, sel=min):
    n, m = len(D), len(D[0])
    comb = comb or (lambda c, p: c + p)
    S = [[INF] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            if mask is not None and not mask[i][j]:
                continue
            if i == 0 and j == 0:
                best = 0.
            else:
                best = INF
                if i:
                    best = min(best, S[i - 1][j])
                if j:
                    best = min(best, S[i][j - 1])
                if i and j:
                    best = min(best, S[i - 1][j - 1])
            S[i][j] = comb(D[i][j], best)
    return S


def all_paths(n, m):
    """every warping path of an n x m grid (small grids only)"""
    out = []

    def rec(path):
        i, j = path[-1]
        if (i, j) == (n - 1, m - 1):
            out.append(tuple(path))
            return
        for di, dj in ((1, 0), (0, 1), (1, 1)):
            if i + di < n and j + dj < m:
                rec(path + [(i + di, j + dj)])
    rec([(0, 0)])
    return out


_PATHS = {}


def paths(n, m):
    if (n, m) not in _PATHS:
        _PATHS[(n, m)] = all_paths(n, m)
    return _PATHS[(n, m)]


def brute(D, mask=None, agg=sum):
    best = INF
    for p in paths(len(D), len(D[0])):
        if mask is not None and not all(mask[i][j] for i, j in p):
            continue
        best = min(best, agg(D[i][j] for i, j in p))
    return best


def dtw(x, y, mask=None):
    return math.sqrt(acc(cost_matrix(x, y), mask)[-1][-1])


def frechet(x, y, mask=None):
    return math.sqrt(acc(cost_matrix(x, y), mask, comb=max)[-1][-1])


def valid_path(p, n, m, mask=None):
    p = [tuple(int(v) for v in q) for q in p]
    if not p or p[0] != (0, 0) or p[-1] != (n - 1, m - 1):
        return False
    for (a, b), (c, d) in zip(p, p[1:]):
        if (c - a, d - b) not in ((1, 0), (0, 1), (1, 1)):
            return False
    if mask is not None and not all(mask[i][j] for i, j in p):
        return False
    return all(0 <= i < n and 0 <= j < m for i, j in p)


def sakoe(n, m, r):
    """|position difference| measured after the length correction"""
    def inside(i, j):
        if n > m:
            return -r <= i - j <= n - m + r
        return -r <= j - i <= m - n + r
    return [[inside(i, j) for j in range(m)] for i in range(n)]


def itakura(n, m, s):
    """documented parallelogram: slopes s and 1/s from both corners (2 decimals rounding)"""
    hi, lo = s * float(n) / float(m), (1 / float(s)) * float(n) / float(m)

    def r2(v):
        return round(float(v) * 100) / 100.
    mask = [[False] * m for _ in range(n)]
    for j in range(m):
        low = math.ceil(max(np.round(lo * j, 2), np.round((n - 1) - hi * (m - 1) + hi * j, 2)))
        up = math.floor(min(np.round(hi * j, 2), np.round((n - 1) - lo * (m - 1) + lo * j, 2)) + 1)
        for i in range(n):
            mask[i][j] = low <= i < up
    feas = all(any(r) for r in mask) and all(any(mask[i][j] for i in range(n)) for j in range(m))
    return mask if feas else None


def mask_for(n, m, gc, radius, slope):
    """mask selected by the documented argument rules; 'warn' when a RuntimeWarning is due"""
    if gc in (None, '') and radius is not None and slope is not None:
        return 'warn'
    if gc == 'sakoe_chiba' or (gc in (None, '') and radius is not None):
        return sakoe(n, m, 1 if radius is None else radius)
    if gc == 'itakura' or (gc in (None, '') and slope is not None):
        k = itakura(n, m, 2. if slope is None else slope)
        return 'warn' if k is None else k
    return [[True] * m for _ in range(n)]


def logsumexp(v):
    v = [x for x in v if x != -INF]
    if not v:
        return -INF
    a = max(v)
    return a + math.log(sum(math.exp(x - a) for x in v))


def softdtw(D, g):
    n, m = len(D), len(D[0])
    R = [[INF] * (m + 1) for _ in range(n + 1)]
    R[0][0] = 0.
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            v = [-R[i - 1][j - 1] / g, -R[i - 1][j] / g, -R[i][j - 1] / g]
            R[i][j] = D[i - 1][j - 1] - g * logsumexp(v)
    return R[n][m]


def softdtw_brute(D, g):
    return -g * logsumexp([-sum(D[i][j] for i, j in p) / g for p in paths(len(D), len(D[0]))])


def softdtw_expected(D, g):
    """expected alignment matrix = derivative of the value with respect to the costs"""
    n, m = len(D), len(D[0])
    # forward / backward log partition functions
    A = [[-INF] * m for _ in range(n)]
    B = [[-INF] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            if i == 0 and j == 0:
                z = 0.
            else:
                z = logsumexp([A[a][b] for a, b in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if a >= 0 and b >= 0])
            A[i][j] = z - D[i][j] / g
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            if i == n - 1 and j == m - 1:
                z = 0.
            else:
                z = logsumexp([B[a][b] for a, b in ((i + 1, j), (i, j + 1), (i + 1, j + 1)) if a < n and b < m])
            B[i][j] = z - D[i][j] / g
    Z = A[-1][-1]
    return [[0. if D[i][j] == INF else math.exp(A[i][j] + B[i][j] + D[i][j] / g - Z) for j in range(m)] for i in range(n)]


def gak_unnorm(x, y, sigma):
    """sum over alignments of the product of local kernels k/(2-k)"""
    n, m = len(x), len(y)
    K = [[0.] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            k = math.exp(-sq(x[i], y[j]) / (2 * sigma ** 2))
            K[i][j] = k / (2 - k)
    S = [[0.] * (m + 1) for _ in range(n + 1)]
    S[0][0] = 1.
    for i in range(n):
        for j in range(m):
            S[i + 1][j + 1] = K[i][j] * (S[i][j] + S[i][j + 1] + S[i + 1][j])
    return S[n][m]


def gak_brute(x, y, sigma):
    tot = 0.
    for p in paths(len(x), len(y)):
        pr = 1.
        for i, j in p:
            k = math.exp(-sq(x[i], y[j]) / (2 * sigma ** 2))
            pr *= k / (2 - k)
        tot += pr
    return tot


def lcs_match(ok):
    """longest strictly increasing matching over allowed pairs ok[i][j]"""
    n, m = len(ok), len(ok[0])
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n):
        for j in range(m):
            L[i + 1][j + 1] = max(L[i][j + 1], L[i + 1][j], L[i][j] + (1 if ok[i][j] else 0))
    return L[n][m]


def subseq_cost(D):
    """min over contiguous parts of the long series"""
    n, m = len(D), len(D[0])
    S = [[INF] * m for _ in range(n)]
    for i in range(n):
        for j in range(m):
            if i == 0:
                b = 0.
                if j:
                    b = min(0., S[0][j - 1])
            else:
                b = S[i - 1][j]
                if j:
                    b = min(b, S[i][j - 1], S[i - 1][j - 1])
            S[i][j] = D[i][j] + b
    return S


def limited(D, L):
    """least cost among warping paths with at most L cells"""
    n, m = len(D), len(D[0])
    cur = {(0, 0): D[0][0]}
    best = D[0][0] if (n, m) == (1, 1) else INF
    for step in range(2, L + 1):
        nxt = {}
        for (i, j), c in cur.items():
            for a, b in ((i + 1, j), (i, j + 1), (i + 1, j + 1)):
                if a < n and b < m:
                    v = c + D[a][b]
                    if v < nxt.get((a, b), INF):
                        nxt[(a, b)] = v
        cur = nxt
        best = min(best, cur.get((n - 1, m - 1), INF))
    return best


def trim(x):
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    n = len(x)
    while n and np.all(np.isnan(x[n - 1])):
        n -= 1
    return x[:n]
