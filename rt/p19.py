from .common import *
from tslearn.matrix_profile import MatrixProfile
from tslearn.utils import to_time_series_dataset

try:
    import stumpy
except ImportError:
    stumpy = None


def _profile(x, m, scale):
    n = len(x) - m + 1
    seg = []
    for i in range(n):
        s = [float(v) for v in x[i:i + m]]
        if scale:
            mu = sum(s) / m
            sd = math.sqrt(sum((v - mu) ** 2 for v in s) / m)
            s = [(v - mu) / (sd if sd > 1e-12 else 1.) for v in s] if max(s) != min(s) else [0.] * m
        seg.append(s)
    ex = math.ceil(m / 4)
    out = []
    for i in range(n):
        c = [math.sqrt(sum((a - b) ** 2 for a, b in zip(seg[i], seg[j]))) for j in range(n) if abs(i - j) > ex]
        out.append(min(c) if c else math.inf)
    return out


def _series(t, n):
    k = t.choice(['gauss', 'walk', 'big', 'half', 'repeat'])
    if k == 'repeat':
        b = t.values((3,), 'gauss')
        return np.resize(b, n) + .1 * t.values((n,), 'gauss') * t.choice([0., 1.])
    return t.values((n,), k)


@case('P19', weight=3)
def profile(t):
    impl = 'stump' if stumpy is not None and t.coin(.04) else 'numpy'
    m = t.integers(3 if impl == 'stump' else 1, 8)
    n_ts = t.integers(1, 3)
    scale = t.coin()
    lens = [t.integers(m + (2 if impl == 'stump' else 0), m + 12) for _ in range(n_ts)]
    X = [_series(t, n) for n in lens]
    A = to_time_series_dataset(X)
    if impl == 'numpy' and n_ts == 1 and t.coin(.3):
        A = np.asfortranarray(A)
    if t.coin(.2):
        B = np.full((A.shape[0], 2 * A.shape[1], 1), 5.)
        B[:, ::2] = A
        A = B[:, ::2]
    t.inp(X=A, m=m, implementation=impl, scale=scale)
    before = A.copy()
    mp = MatrixProfile(subsequence_length=m, implementation=impl, scale=scale)
    R = mp.fit_transform(A)
    t.ok(np.array_equal(A, before, equal_nan=True), 'the series were modified')
    t.same(R.shape, (n_ts, max(lens) - m + 1, 1), 'shape')
    for i, x in enumerate(X):
        p = _profile(x, m, scale)
        t.close(R[i, :len(p), 0], p, f'profile of series {i}', rtol=1e-5, atol=1e-5)
        t.ok(not np.isfinite(R[i, len(p):]).any(), f'profile of series {i} has values beyond its end')
    t.ok(np.array_equal(mp.transform(A), R, equal_nan=True), 'transform differs from fit_transform')
