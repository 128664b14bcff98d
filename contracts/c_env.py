"""Envelopes and LB_Keogh."""
from .dpspec import *
from .pathspec import post
from .c_public import trimmed
from .c_masks import sakoe_cell
from .registry import contract, lemma

M = 'tslearn.metrics.dtw_variants.'


def window(ex, r, sz, radius):
    """(min, max) of x[k,d] over the window |k-i| <= radius, clipped to the series"""
    def bound(kind):
        def f(i, d):
            lo = ite(lt(i_sub(i, radius), 0), 0, i_sub(i, radius))
            hi = ite(lt(sz, i_add(i_add(i, radius), 1)), sz, i_add(i_add(i, radius), 1))
            return ex.reduce(kind, i_sub(hi, lo), lambda k: r((i_add(k, lo), d)), init=None)
        return f
    return bound('min'), bound('max')


class Envelope(Contract):
    def __init__(self, name, arg='time_series', be=False):
        self.qual, self.arg, self.be = M + name, arg, be
        if be:
            self.variants = ('numpy', 'torch')

    def params(self, ex, variant):
        n, d = sizes(ex, 'sz', 'd')
        v = {self.arg: sym_arr(ex, 'x', (n, d)), 'radius': sizes(ex, 'radius', lo=0)}
        if self.be:
            v['be'] = models.BackendV(variant)
        return v

    def requires(self, ex, v):
        x = v[self.arg]
        return [('non-empty', And(le(1, x.shape[0]), le(1, x.shape[1]))), ('radius >= 0', le(0, v['radius']))]

    def spec(self, ex, v):
        x = v[self.arg]
        lo, hi = window(ex, ex.reader(x), x.shape[0], v['radius'])
        g = [generic(ex, x.shape, f) for f in (lo, hi)]
        return tuple(ex.new_arr(x.shape, lambda i, f=f: f(*i)) for f in g)


contract(['P10'], Envelope('_njit_lb_envelope'))
contract(['P10', 'P17'], Envelope('_lb_envelope', be=True))
contract(['P10', 'P17'], Envelope('lb_envelope', arg='ts', be=True))


def excess(q, lo, hi):
    """squared distance of q to the interval [lo, hi]"""
    a, b = sub(q, hi), sub(q, lo)
    z = XR(rv(0))
    return ite(Not(le(q, hi)), mul(a, a), z), ite(Not(le(lo, q)), mul(b, b), z)


class LbKeogh(Contract):
    """square root of the squared distances of the query to the envelope of the candidate"""
    qual = M + 'lb_keogh'
    variants = ('candidate', 'envelope')

    def params(self, ex, variant):
        n, m = sizes(ex, 'n', 'm')
        ex.pc.append(n == m)
        q = sym_arr(ex, 'q', (n, 1))
        if variant == 'candidate':
            return dict(ts_query=q, ts_candidate=sym_arr(ex, 'c', (m, 1)), radius=sizes(ex, 'radius', lo=0), envelope_candidate=None)
        return dict(ts_query=q, ts_candidate=None, radius=1, envelope_candidate=(sym_arr(ex, 'down', (m, 1)), sym_arr(ex, 'up', (m, 1))))

    def requires(self, ex, v):
        return []

    def spec(self, ex, v):
        q = ex.reader(v['ts_query'])
        c = v['ts_candidate']
        if c is not None:
            lo, hi = window(ex, ex.reader(c), c.shape[0], v['radius'])
            down, up = (generic(ex, c.shape, f) for f in (lo, hi))
        else:
            rd = [ex.reader(x) for x in v['envelope_candidate']]
            down, up = (lambda i, d, r=r: r((i, d)) for r in rd)
        n = v['ts_query'].shape[0]
        A = ex.reduce('sum', n, lambda i: excess(q((i, 0)), down(i, 0), up(i, 0))[0])
        B = ex.reduce('sum', n, lambda i: excess(q((i, 0)), down(i, 0), up(i, 0))[1])
        return models.unary('sqrt')(add(A, B))


contract(['P10'], LbKeogh())


# ---- LB_Keogh <= DTW under the band ----
def lb_pointwise(ex):
    """a point of the window lies inside the envelope, so its distance to the query is at least the excess"""
    q, c, lo, hi = (XR(z3.Real(f'{n}!{uid()}')) for n in ('q', 'c', 'lo', 'hi'))
    a, b = excess(q, lo, hi)
    x = sub(q, c)
    return [post('pointwise bound', ex, le(add(a, b), mul(x, x)), [le(lo, c), le(c, hi)])]


def lb_window(ex):
    """every admissible pair of the band is in the window of the envelope, whose bounds enclose it"""
    n = sizes(ex, 'n')
    r = sizes(ex, 'radius', lo=0)
    X = VFn('x', [z3.IntSort()] * 2, FIN)
    lo, hi = window(ex, lambda i: X(zi(i[0]), zi(i[1])), n, r)
    i, j = z3.Int(f'i!{uid()}'), z3.Int(f'j!{uid()}')
    z = z3.IntVal(0)
    k = z3.Int(f'k!{uid()}')         # position of j inside the window of i
    hyp = [inside(i, n), inside(j, n), sakoe_cell(n, n, r, i, j), eq(k, i_sub(j, ite(lt(i_sub(i, r), 0), 0, i_sub(i, r))))]
    return [post('lower envelope', ex, le(lo(i, z), X(j, z)), hyp), post('upper envelope', ex, le(X(j, z), hi(i, z)), hyp)]


def lb_bound(ex):
    """if every admissible cost of row i is at least h(i) >= 0, the accumulated value of row p is at least h(0)+...+h(p-1)"""
    l1, l2 = sizes(ex, 'l1', 'l2')
    c, m, h = VFn('cost', [z3.IntSort()] * 2, FIN), VFn('mask', [z3.IntSort()] * 2, 'B'), VFn('h', [z3.IntSort()], FIN)
    c.unfold = lambda i, j: [Implies(m(i, j), le(h(i), c(i, j))), le(0, c(i, j))]
    h.unfold = lambda i: [le(0, h(i))]
    S = dp_spec(ex, 'S_dtw', lambda i, j: c(zi(i), zi(j)), lambda i: m(zi(i[0]), zi(i[1])), dtw_combine)
    H = VFn('H', [z3.IntSort()], FIN)
    H.unfold = lambda p: [Implies(p <= 0, eq(H(p), 0)), Implies(p >= 1, eq(H(p), add(H(z3.simplify(p - 1)), h(z3.simplify(p - 1)))))]
    B = lambda p, q: le(H(p), S(p, q))
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    z = z3.IntVal(0)
    pos = lambda p: le(0, H(p))
    return [post('row sums are non-negative', ex, And(pos(z), Implies(pos(p - 1), pos(p))), [p >= 1]),
            post('border', ex, And(B(z, q), B(p, z)), [p >= 0, q >= 0]),
            post('interior', ex, B(p, q), [p >= 1, q >= 1, B(p - 1, q), B(p, q - 1), B(p - 1, q - 1), pos(p - 1)])]


for nm, b in (('pointwise', lb_pointwise), ('the window covers the band', lb_window), ('row-wise lower bound of the accumulated value', lb_bound)):
    lemma(['P10'], Lemma('lb_keogh: ' + nm, b))
