from .common import *
from tslearn.metrics import (dtw_subsequence_path, subsequence_cost_matrix, subsequence_path, dtw_limited_warping_length,
                             dtw_path_limited_warping_length, dtw)


def _pair(t, lo=1, hi=8):
    x = t.series(lo, hi)
    return x, t.series(lo, hi + 2, d=x.shape[1])


def _check_sub(t, p, D, end, exp):
    p = [(int(a), int(b)) for a, b in p]
    t.ok(p[0][0] == 0 and p[-1] == (len(D) - 1, end), f'subsequence path endpoints {p[0]}..{p[-1]}, expected end {end}')
    for (a, b), (c, d) in zip(p, p[1:]):
        t.ok((c - a, d - b) in ((1, 0), (0, 1), (1, 1)), 'not a unit step')
    t.ok(all(0 <= a < len(D) and 0 <= b < len(D[0]) for a, b in p), 'index outside the series')
    t.close(path_cost(D, p), exp, 'cost of the returned path')


@case('P09', weight=8)
def subsequence(t):
    q, l = _pair(t)
    be = backends(t)
    aq, al = (t.layout(q), t.layout(l)) if be == 'numpy' else (to_backend(t, q, be), to_backend(t, l, be))
    t.inp(query=aq, long=al, backend=be)
    D = O.cost_matrix(q, l)
    S = O.subseq_cost(D)
    C = subsequence_cost_matrix(aq, al)
    t.close(C, S, 'accumulated subsequence cost')
    best = min(S[-1])
    p, d = dtw_subsequence_path(aq, al)
    t.close(d, math.sqrt(best), 'subsequence DTW')
    t.close(d, min(O.dtw(q, l[a:b]) for a in range(len(l)) for b in range(a + 1, len(l) + 1)), 'minimum over contiguous parts')
    _check_sub(t, p, D, int(p[-1][1]), best)
    e = t.integers(0, len(l) - 1)
    _check_sub(t, subsequence_path(C, e), D, e, S[-1][e])


@case('P09', weight=2)
def subsequence_long(t):
    d = t.choice([1, 2])
    q, l = t.values((t.choice([3, 10]), d)), t.values((t.choice([20, 60]), d))
    t.inp(query=q, long=l)
    D = O.cost_matrix(q, l)
    S = O.subseq_cost(D)
    p, v = dtw_subsequence_path(q, l)
    t.close(v, math.sqrt(min(S[-1])), 'subsequence DTW')
    _check_sub(t, p, D, int(p[-1][1]), min(S[-1]))


@case('P09', weight=6)
def limited(t):
    x, y = _pair(t, 1, 6)
    n, m = len(x), len(y)
    be = t.choice(['numpy', 'numpy', 'torch'])
    L = t.integers(max(n, m), n + m)
    ax, ay = (t.layout(x), t.layout(y)) if be == 'numpy' else (to_backend(t, x, be), to_backend(t, y, be))
    t.inp(x=ax, y=ay, max_length=L, backend=be)
    D = O.cost_matrix(x, y)
    exp = math.sqrt(O.limited(D, L))
    t.close(dtw_limited_warping_length(ax, ay, L), exp, 'limited-length DTW')
    p, d = dtw_path_limited_warping_length(ax, ay, L)
    t.close(d, exp, 'limited-length DTW (with path)')
    t.ok(O.valid_path(p, n, m), f'invalid path {p}')
    t.ok(len(p) <= L, f'path of length {len(p)} > {L}')
    t.close(math.sqrt(path_cost(D, p)), exp, 'cost of the returned path')


@case('P09', weight=3)
def limited_monotone(t):
    x, y = _pair(t, 1, 6)
    n, m = len(x), len(y)
    t.inp(x=x, y=y)
    prev = None
    for L in range(max(n, m), n + m):
        v = float(dtw_limited_warping_length(x, y, L))
        t.ok(prev is None or v <= prev + 1e-9, 'relaxing the limit increased the value')
        prev = v
    t.close(prev, O.dtw(x, y), 'a sufficient limit recovers DTW')
    if max(n, m) > 1:
        t.raises(ValueError, lambda: dtw_limited_warping_length(x, y, max(n, m) - 1), 'limit below the longest series')
        t.raises(ValueError, lambda: dtw_path_limited_warping_length(x, y, max(n, m) - 1), 'limit below the longest series')
