"""Series length: trailing missing values are padding, everything before belongs to the series."""
from .common import *
from .pathspec import post
from .registry import contract, lemma, EXTERNALS

ANYF = ('X', True, True, True)
U_ = 'tslearn.utils.utils.'


def nan_row(ex, ts):
    """row i of ts is entirely missing"""
    r, d = ex.reader(ts), (ts.shape[1] if ts.ndim == 2 else 1)

    def row(i):
        if ts.ndim == 1:
            return toX(r((i,))).n
        c = z3.Int('k#probe')
        e = toX(r((i, c))).n
        if isinstance(e, bool) or not E_mentions(e, {c.get_id()}):
            return e                      # does not depend on the feature (feature counts are positive)
        return ex.reduce('and', d, lambda k: toX(r((i, k))).n)
    return ex.tabulate(1, row)


def size_fn(ex, ts):
    """TS(m): length of the first m rows without the trailing all-missing ones"""
    row = nan_row(ex, ts)
    return ex.define('tssize', 1, 'I', lambda F, m: ite(m <= 0, z3.IntVal(0), ite(row(m - 1), F(m - 1), m)))


def candidates(f, i):
    """terms the row index is compared with"""
    out, stack, seen = [], [f], set()
    while stack and len(out) < 4:
        e = stack.pop()
        if not z3.is_expr(e) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if (z3.is_ge(e) or z3.is_le(e)) and e.arg(0).sort() == z3.IntSort():
            for a, b in ((0, 1), (1, 0)):
                t = e.arg(b)
                if e.arg(a).eq(i) and not E_mentions(t, {i.get_id()}) and not any(t.eq(x) for x in out):
                    out.append(t)
        stack.extend(e.children())
    return out


def size_of(ex, ts):
    n = ts.shape[0]
    i = z3.Int(f'i!{uid()}')
    row = nan_row(ex, ts)(i)
    f = z3.simplify(row) if z3.is_expr(row) else row
    # rows >= T0 and only they are missing: the size is T0 (lemma 'size of a padded series')
    for T0 in candidates(f, i):
        if prove(ex.pc, And(le(0, T0), le(T0, n), Implies(inside(i, n), zb(f) == (i >= T0))), rounds=1, timeout=1000):
            return T0
    row = nan_row(ex, ts)
    i = z3.Int(f'i!{uid()}')
    if ex.decide(Implies(inside(i, n), Not(row(i)))) is True:
        return n
    S = size_fn(ex, ts)(zi(n))
    ex.facts += [And(S >= 0, S <= zi(n))]
    return S


class TsSize(Contract):
    variants = (2, 1)

    def __init__(self, qual=U_ + '_ts_size', extra=('backend',)):
        self.qual, self.extra = qual, extra

    def params(self, ex, variant):
        n, d = sizes(ex, 'n', lo=0), sizes(ex, 'd')
        return dict(ts=sym_arr(ex, 'ts', (n, d) if variant == 2 else (n,), ANYF), **{k: None for k in self.extra})

    def requires(self, ex, v):
        return [('at least one feature', le(1, v['ts'].shape[1]) if v['ts'].ndim == 2 else True)]

    def spec(self, ex, v):
        return size_of(ex, v['ts'])

    def obligations(self, ex, res, v):
        n = zi(v['ts'].shape[0])
        S = size_fn(ex, v['ts'])
        if not is_int(res):
            return [post('the size is an integer', ex, False)]
        out = []
        if len(ex.whiles) != 1:
            raise Unsupported('expected one loop')
        w = ex.whiles[0]
        t = z3.Int(f't!{uid()}')
        at = lambda x: z3.substitute(zb(w['cond'][1]), (w['cond'][0], x))
        cond = at(t)
        last = [Implies(w['N'] >= 1, at(z3.simplify(w['N'] - 1)))]     # the loop ran N times
        # the loop is cut at sz(t) = n - t
        out.append(post('result is the number of rows left', ex, eq(res, n - w['N'])))
        out.append(post('rows removed one at a time', ex, eq(S(n - t), S(n - t - 1)), [t >= 0, t < w['N'], cond]))
        out.append(post('stops at the specified size', ex, eq(S(n - w['N']), n - w['N']), last))
        out.append(post('between 0 and the number of rows', ex, And(le(0, res), le(res, n)), last))
        return out


def padded_size(ex):
    n, T0, d = sizes(ex, 'n', 'T0', 'd', lo=0)
    S = ex.define('tssize', 1, 'I', lambda F, m: ite(m <= 0, z3.IntVal(0), ite(m - 1 >= T0, F(m - 1), m)))
    m = z3.Int(f'm!{uid()}')
    H = lambda m: eq(S(m), z3.If(m <= T0, m, T0))
    return [post('empty', ex, H(z3.IntVal(0))), post('step', ex, H(m), [m >= 1, H(m - 1)])]


def size_bounds(ex):
    row = VFn('row', [z3.IntSort()], 'B')
    S = ex.define('tssize', 1, 'I', lambda F, m: ite(m <= 0, z3.IntVal(0), ite(row(m - 1), F(m - 1), m)))
    m = z3.Int(f'm!{uid()}')
    H = lambda m: And(S(m) >= 0, S(m) <= m)
    return [post('empty', ex, H(z3.IntVal(0))), post('step', ex, H(m), [m >= 1, H(m - 1)])]


contract(['P11', 'P01', 'P05'], TsSize())
lemma(['P11', 'P05'], Lemma('size of a padded series', padded_size))
lemma(['P11'], Lemma('size bounds', size_bounds))


def as_series(ex, ts):
    """2-d view of a series: a vector is a single feature"""
    if not isinstance(ts, Arr):
        raise Unsupported('series is not an array')
    if ts.ndim == 1:
        r = ex.reader(ts)
        return ex.new_arr((ts.shape[0], 1), lambda i: r((i[0],)))
    return ts


TRIM = z3.Function('trim', U, U)


class ToSeries(Contract):
    """2-d view of the series, without the trailing missing rows on request"""
    variants = ((2, False), (2, True), (1, False), (1, True))

    def __init__(self, name, public):
        self.qual, self.public = U_ + name, public

    def params(self, ex, variant):
        nd, rem = variant
        n, d = sizes(ex, 'n', lo=0), sizes(ex, 'd')
        v = dict(ts=sym_arr(ex, 'ts', (n, d) if nd == 2 else (n,), ANYF), remove_nans=rem)
        v['be' if self.public else 'backend'] = None
        return v

    def requires(self, ex, v):
        if is_u(v['ts']):
            return []
        return [('at least one feature', le(1, v['ts'].shape[1]) if v['ts'].ndim == 2 else True)]

    def spec(self, ex, v):
        if is_u(v['ts']):                 # an abstract series
            return TRIM(v['ts']) if v['remove_nans'] else v['ts']
        ts = as_series(ex, v['ts'])
        n, d = ts.shape
        if v['remove_nans']:
            n = size_of(ex, ts)
        r = ex.reader(ts)
        return ex.new_arr((n, d), r)


contract(['P11', 'P01', 'P05'], ToSeries('_to_time_series', False))
contract(['P11', 'P01'], ToSeries('to_time_series', True))


class TsSizePub(TsSize):
    def spec(self, ex, v):
        return size_of(ex, as_series(ex, v['ts']))

    def obligations(self, ex, res, v):
        return Contract.obligations(self, ex, res, v)


contract(['P11'], TsSizePub(U_ + 'ts_size', ('be',)))


class ToDataset(Contract):
    """array dataset (n, sz, d): same values, each series' tail padding normalised to the longest size"""
    qual = U_ + 'to_time_series_dataset'
    variants = ('numpy', 'torch')

    def params(self, ex, variant):
        n, sz, d = sizes(ex, 'n', 'sz', 'd')
        return dict(dataset=sym_arr(ex, 'X', (n, sz, d), ANYF), be=models.BackendV(variant))

    def spec(self, ex, v):
        X = v['dataset']
        n, sz, d = X.shape
        r = ex.reader(X)

        def size(i):
            return size_of(ex, Arr3(ex, X, i))
        S = ex.tabulate(1, lambda i: zi(size(i)))
        mx = ex.reduce('max', n, lambda i: S(i), init=None)
        return ex.new_arr((n, mx, d), lambda x: ite(lt(x[1], S(x[0])), r(x), NAN))


def Arr3(ex, X, i):
    r = ex.reader(X)
    return ex.new_arr(X.shape[1:], lambda x: r((i,) + tuple(x)))


contract(['P11', 'P05'], ToDataset())
