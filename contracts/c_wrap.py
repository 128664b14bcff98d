"""Distances and alignments built from mask + accumulated matrix + backtracking: the compiled/vectorised entry kernels."""
from .dpspec import *
from .pathspec import *
from .c_masks import VARS, mask_params, mask_requires, mask_cell, mask_raises
from .registry import contract, lemma

COMB = {'dtw': dtw_combine, 'frechet': fre_combine}


def xsqrt(x):
    return models.unary('sqrt')(x)


def kernel_spec(ex, kind, s1, s2, v):
    """accumulated value function of two trimmed series under the requested constraint"""
    n, m = s1.shape[0], s2.shape[0]
    cell = mask_cell(v, n, m)
    c = sqdist(ex, finite_reader(ex, s1), finite_reader(ex, s2), s1.shape[1])
    return dp_spec(ex, f'S_{kind}', c, cell, COMB[kind]), c, cell


class Dist(Contract):
    variants = VARS
    only_raises = True

    def __init__(self, kind, qual):
        self.kind, self.qual = kind, qual

    def params(self, ex, variant):
        n, m, d = sizes(ex, 'l1', 'l2', 'd')
        return dict(s1=sym_arr(ex, 's1', (n, d)), s2=sym_arr(ex, 's2', (m, d)), **mask_params(ex, variant))

    def requires(self, ex, v):
        a, b = v['s1'], v['s2']
        return mask_requires(v) + [('feature sizes agree', eq(a.shape[1], b.shape[1])), ('finite values', And(finite_cells(ex, a), finite_cells(ex, b))),
                                   ('non-empty series', And(le(1, a.shape[0]), le(1, b.shape[0])))]

    def raises(self, ex, v):
        return mask_raises(v)

    def spec(self, ex, v):
        S, _, _ = kernel_spec(ex, self.kind, v['s1'], v['s2'], v)
        return xsqrt(S(v['s1'].shape[0], v['s2'].shape[0]))


class DistPath(Dist):
    def spec(self, ex, v):
        a, b = v['s1'], v['s2']
        S, _, _ = kernel_spec(ex, self.kind, a, b, v)
        acc = ex.reader(acc_arr(ex, S, a.shape[0], b.shape[0]))
        return xsqrt(S(a.shape[0], b.shape[0])), path_value(ex, a.shape[0], b.shape[0], acc)

    def obligations(self, ex, res, v):
        if not (isinstance(res, tuple) and len(res) == 2):
            return [post('result: (score, path)', ex, False)]
        a, b = v['s1'], v['s2']
        n, m = a.shape[0], b.shape[0]
        S, c, cell = kernel_spec(ex, self.kind, a, b, v)
        acc = ex.reader(acc_arr(ex, S, n, m))
        out = equal_obls(ex, res[0], xsqrt(S(n, m)), self, 'score')
        out += valid_path_obls(ex, res[1], n, m, acc)
        return out


for kind, mod, ps in (('dtw', '_dtw', ['P01', 'P05', 'P23']), ('frechet', '_frechet', ['P04', 'P05'])):
    for pre, extra in (('_njit_', []), ('_', ['P17'])):
        contract(ps + ['P03'] + extra, Dist(kind, f'tslearn.metrics.{mod}.{pre}{kind}'))
        contract(['P02', 'P03'] + extra, DistPath(kind, f'tslearn.metrics.{mod}.{pre}{kind}_path'))


# ---- the recurrence is the minimum over admissible warping paths (for every cost and every mask) ----
def opaque(ex, kind):
    l1, l2 = sizes(ex, 'l1', 'l2')
    c = VFn('cost', [z3.IntSort()] * 2, FIN)
    if kind != 'lcss':
        c.unfold = lambda i, j: [le(0, c(i, j))]
    m = VFn('mask', [z3.IntSort()] * 2, 'B')
    S = dp_spec(ex, f'S_{kind}', lambda i, j: c(zi(i), zi(j)), lambda i: m(zi(i[0]), zi(i[1])), COMB[kind])
    return l1, l2, (lambda i, j: c(zi(i), zi(j))), (lambda i: m(zi(i[0]), zi(i[1]))), S


def attained(kind):
    """a backtracked path (every step from a best predecessor) of finite score is admissible and its cost is the score"""
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        acc = ex.reader(acc_arr(ex, S, l1, l2))
        return attained_obls(ex, path_value(ex, l1, l2, acc), S, c, m, COMB[kind], XR(rv(0)))
    return build


def free_path(ex, l1, l2, mask, n):
    """an arbitrary admissible warping path"""
    P = VFn('Q', [z3.IntSort()], ('T', ['I', 'I']))

    def unf(x):
        q, p = P(x), P(z3.simplify(x - 1))
        return [Implies(And(x >= 0, x < n), And(inside(q[0], l1), inside(q[1], l2), truth(mask(q)))), Implies(x == 0, eq(q, (0, 0))),
                Implies(And(x >= 1, x < n), step_ok(p, q))]
    P.unfold = unf
    return P


def prefix_cost(P, cost, combine, neutral):
    C = VFn('pathcost', [z3.IntSort()], EXT)
    C.unfold = lambda x: [same(C(x), combine(cost(*P(x)), ite(x <= 0, neutral, C(z3.simplify(x - 1)))))]
    return C


def minimal(kind):
    """no admissible warping path is cheaper than the accumulated value (at every prefix, hence at the end)"""
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        n, x = sizes(ex, 'n'), z3.Int(f'x!{uid()}')
        P = free_path(ex, l1, l2, m, n)
        C = prefix_cost(P, c, COMB[kind], XR(rv(0)))
        acc = lambda p: S(i_add(p[0], 1), i_add(p[1], 1))
        H = lambda y: le(acc(P(y)), C(y))
        return [post('first prefix', ex, H(z3.IntVal(0))), post('every prefix', ex, H(x + 1), [x >= 0, x + 1 < n, H(x)], rounds=4)]
    return build


for kind, ps in (('dtw', ['P01', 'P03']), ('frechet', ['P04', 'P03'])):
    lemma(ps + ['P02'], Lemma(f'{kind}: backtracked path attains the accumulated value', attained(kind), timeout=20000))
    lemma(ps, Lemma(f'{kind}: accumulated value is minimal over admissible paths', minimal(kind), timeout=20000))


# ---- consequences of the recurrence used in the statements ----
def induct2(ex, H, label, extra=(), rounds=4):
    """H(p,q) for all p,q >= 0 by induction on p+q"""
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    return [post(f'{label}: border', ex, And(H(p, z3.IntVal(0)), H(z3.IntVal(0), q)), [p >= 0, q >= 0, *extra], rounds=rounds),
            post(f'{label}: interior', ex, H(p, q), [p >= 1, q >= 1, H(p - 1, q), H(p, q - 1), H(p - 1, q - 1), *extra], rounds=rounds)]


def symmetric(kind):
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        T = dp_spec(ex, f'T_{kind}', lambda i, j: c(j, i), lambda i: m((i[1], i[0])), COMB[kind])
        return induct2(ex, lambda p, q: same(S(p, q), T(q, p)), 'transposing costs and mask transposes the values')
    return build


def mask_monotone(kind):
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        W = VFn('wider', [z3.IntSort()] * 2, 'B')
        W.unfold = lambda i, j: [Implies(m((i, j)), W(i, j))]
        T = dp_spec(ex, f'T_{kind}', c, lambda i: W(zi(i[0]), zi(i[1])), COMB[kind])
        return induct2(ex, lambda p, q: le(T(p, q), S(p, q)), 'a wider mask never increases the value')
    return build


def zero_self(kind):
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        x = z3.Int(f'x!{uid()}')
        H = lambda y: same(S(y, y), XR(rv(0)))
        D = lambda y: And(truth(m((y, y))), same(c(y, y), XR(rv(0))))
        p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
        N = lambda p, q: le(0, S(p, q))
        return induct2(ex, N, 'values are non-negative') + [
            post('first', ex, H(z3.IntVal(0))),
            post('step', ex, H(x), [x >= 1, H(x - 1), D(x - 1), N(x - 1, x), N(x, x - 1)])]
    return build


def frechet_below_dtw(ex):
    l1, l2, c, m, S = opaque(ex, 'dtw')
    T = dp_spec(ex, 'S_frechet', c, m, fre_combine)
    H = lambda p, q: And(le(T(p, q), S(p, q)), le(0, S(p, q)))
    return induct2(ex, H, 'frechet <= dtw')


def infinite_only_without_path(kind):
    """if some admissible path reaches the cell its value is finite"""
    def build(ex):
        l1, l2, c, m, S = opaque(ex, kind)
        n, x = sizes(ex, 'n'), z3.Int(f'x!{uid()}')
        P = free_path(ex, l1, l2, m, n)
        H = lambda y: Not(S(i_add(P(y)[0], 1), i_add(P(y)[1], 1)).p)
        return [post('first prefix', ex, H(z3.IntVal(0))), post('every prefix', ex, H(x + 1), [x >= 0, x + 1 < n, H(x)])]
    return build


for kind, ps in (('dtw', ['P01']), ('frechet', ['P04'])):
    lemma(ps + ['P05'], Lemma(f'{kind}: symmetric', symmetric(kind)))
    lemma(ps + ['P03'], Lemma(f'{kind}: wider constraint, smaller value', mask_monotone(kind)))
    lemma(ps + ['P05'], Lemma(f'{kind}: zero on the same series', zero_self(kind)))
    lemma(ps, Lemma(f'{kind}: finite as soon as one admissible path exists', infinite_only_without_path(kind)))
lemma(['P04'], Lemma('frechet never exceeds dtw', frechet_below_dtw))
