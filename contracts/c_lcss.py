"""Longest common subsequence similarity: counts, similarity score, matched pairs."""
from .dpspec import *
from .pathspec import *
from .c_masks import VARS, mask_params, mask_requires, mask_cell, mask_raises
from .c_public import trimmed, PV
from .registry import contract, lemma

M = 'tslearn.metrics.dtw_variants.'


def matcher(ex, v):
    """(i,j) is a match: inside the mask and at distance at most eps"""
    m, e = ex.reader(v['mask']), v['eps']
    if 'dist_matrix' in v:
        r = finite_reader(ex, v['dist_matrix'])
        return lambda i, j: And(truth(m((i, j))), le(r((i, j)), e))
    c = sqdist(ex, finite_reader(ex, v['s1']), finite_reader(ex, v['s2']), v['s1'].shape[1])
    return lambda i, j: And(truth(m((i, j))), le(models.unary('sqrt')(c(i, j)), e))


def lcss_spec(ex, match):
    """L(p,q): size of the longest common subsequence of the first p and q points"""
    def body(L, p, q):
        a, b = L(p, q - 1), L(p - 1, q)
        return ite(Or(p <= 0, q <= 0), z3.IntVal(0), ite(match(p - 1, q - 1), i_add(1, L(p - 1, q - 1)), ite(le(b, a), a, b)))
    return ex.define('L', 2, 'I', body)


def dims(v):
    return v['dist_matrix'].shape if 'dist_matrix' in v else (v['s1'].shape[0], v['s2'].shape[0])


class Lcss(Contract):
    """common parameters"""
    MAT = False
    BACK = None

    def __init__(self, name, mat=False, backend=False):
        self.qual, self.mat, self.backend = M + name, mat, backend
        if backend:
            self.variants = ('numpy', 'torch')

    def params(self, ex, variant):
        l1, l2, d = sizes(ex, 'l1', 'l2', 'd')
        v = dict(dist_matrix=sym_arr(ex, 'D', (l1, l2))) if self.mat else dict(s1=sym_arr(ex, 's1', (l1, d)), s2=sym_arr(ex, 's2', (l2, d)))
        v.update(eps=ex.mkval('eps', FIN), mask=sym_arr(ex, 'mask', (l1, l2), 'B'))
        if self.backend:
            v['be'] = models.BackendV(variant)
        return v

    def requires(self, ex, v):
        l1, l2 = dims(v)
        out = [('mask shape', And(eq(v['mask'].shape[0], l1), eq(v['mask'].shape[1], l2))), ('non-empty', And(le(1, l1), le(1, l2)))]
        if 'dist_matrix' in v:
            return out + [('finite distances', finite_cells(ex, v['dist_matrix']))]
        return out + [('feature sizes agree', eq(v['s1'].shape[1], v['s2'].shape[1])), ('finite values', And(finite_cells(ex, v['s1']), finite_cells(ex, v['s2'])))]


class LcssAcc(Lcss):
    def spec(self, ex, v):
        L = lcss_spec(ex, matcher(ex, v))
        l1, l2 = dims(v)
        a = ex.new_arr((i_add(l1, 1), i_add(l2, 1)), lambda i: L(zi(i[0]), zi(i[1])), 'i')
        a.ind = (L, lambda x, y: (x, y), lambda w: i_add(w[0], w[1]))
        return a


class LcssScore(Lcss):
    def spec(self, ex, v):
        L = lcss_spec(ex, matcher(ex, v))
        l1, l2 = dims(v)
        return div(toX(L(zi(l1), zi(l2))), toX(ite(le(l1, l2), zi(l1), zi(l2))))


contract(['P08'], LcssAcc('njit_lcss_accumulated_matrix'))
contract(['P08', 'P17'], LcssAcc('lcss_accumulated_matrix', backend=True))
contract(['P08'], LcssAcc('njit_lcss_accumulated_matrix_from_dist_matrix', mat=True))
contract(['P08', 'P17'], LcssAcc('lcss_accumulated_matrix_from_dist_matrix', mat=True, backend=True))
contract(['P08'], LcssScore('_njit_lcss'))
contract(['P08', 'P17'], LcssScore('_lcss', backend=True))


# ---- matched pairs ----
def lcss_path_value(ex, L, match, l1, l2):
    """abstract list of matched pairs: only its contract is known"""
    P = VFn('match', [z3.IntSort()], ('T', ['I', 'I']))
    n = L(zi(l1), zi(l2))
    ex.facts.append(n >= 0)

    def unf(x):
        q, p = P(x), P(z3.simplify(x - 1))
        return [Implies(And(x >= 0, x < n), And(inside(q[0], l1), inside(q[1], l2), match(*q))),
                Implies(And(x >= 1, x < n), And(lt(p[0], q[0]), lt(p[1], q[1])))]
    P.unfold = unf
    st, c = Store('path'), Cell('npath')
    ex.heap[st] = lambda i: P(zi(i[0]))
    ex.cells[c] = n
    return SList(st, c)


def lcss_path_obls(ex, res, L, match, l1, l2, label='pairs'):
    t = lst(ex, res)
    if t is None:
        return [post(f'{label}: is a list of index pairs', ex, False)]
    n, f = t
    out = [post(f'{label}: as many as the similarity count', ex, eq(n, L(zi(l1), zi(l2))))]
    x = z3.Int(f'x!{uid()}')
    ex.pc.append(And(x >= 0, x < zi(n)))
    q = f(x)
    out.append(post(f'{label}: in range', ex, And(inside(q[0], l1), inside(q[1], l2))))
    out.append(post(f'{label}: within eps and inside the constraint', ex, match(*q)))
    ex.pc[-1] = And(x >= 0, x + 1 < zi(n))
    p, q = f(x), f(x + 1)
    out.append(post(f'{label}: strictly increasing', ex, And(lt(p[0], q[0]), lt(p[1], q[1]))))
    ex.pc.pop()
    return out


class LcssPath(Lcss):
    rounds = 4

    def params(self, ex, variant):
        v = super().params(ex, variant)
        l1, l2 = dims(v)
        L = lcss_spec(ex, matcher(ex, v))
        v.update(acc_cost_mat=ex.new_arr((i_add(l1, 1), i_add(l2, 1)), lambda i: L(zi(i[0]), zi(i[1])), 'i'), sz1=l1, sz2=l2)
        return v

    def requires(self, ex, v):
        l1, l2 = dims(v)
        L = lcss_spec(ex, matcher(ex, v))
        i, j = z3.Int(f'i!{uid()}'), z3.Int(f'j!{uid()}')
        return super().requires(ex, v) + [('sizes', And(eq(v['sz1'], l1), eq(v['sz2'], l2))),
                                          ('accumulated matrix', Implies(And(i >= 0, i <= zi(l1), j >= 0, j <= zi(l2)), eq(ex.rd(v['acc_cost_mat'], (i, j)), L(i, j))))]

    def spec(self, ex, v):
        match = matcher(ex, v)
        return lcss_path_value(ex, lcss_spec(ex, match), match, *dims(v))

    def obligations(self, ex, res, v):
        match = matcher(ex, v)
        L = lcss_spec(ex, match)
        l1, l2 = dims(v)
        if len(ex.whiles) != 1:
            raise Unsupported('expected one loop')
        w = ex.whiles[0]
        N = w['N']
        ints = [f for k, (c, f) in w['carr'].items() if c == 'rec' and f.tpl == 'I']
        cnt = [f for k, (c, f) in w['carr'].items() if c == 'sum']
        sts = [f for k, (c, f) in w['stores'].items()]
        if len(ints) != 2 or len(cnt) != 1 or len(sts) != 1:
            raise Unsupported('unexpected loop state')
        # which counter walks over the rows?
        i, j = ints if prove(ex.pc, eq(ints[0](z3.IntVal(0)), l1), rounds=1, timeout=1000) else ints[::-1]
        n, P = cnt[0], sts[0]
        t, x = z3.Int(f't!{uid()}'), z3.Int(f'x!{uid()}')
        dom = [t >= 0, t < N]
        A = lambda t: And(i(t) >= 0, j(t) >= 0, i(t) <= l1, j(t) <= l2, n(t) >= 0, n(t) + L(i(t), j(t)) == L(zi(l1), zi(l2)))
        B = lambda t, x: Implies(And(x >= 0, x < n(t)), And(i(t) <= P(t, x)[0], j(t) <= P(t, x)[1], lt(P(t, x)[0], l1), lt(P(t, x)[1], l2), match(*P(t, x))))
        C = lambda t, x: Implies(And(x >= 0, x + 1 < n(t)), And(lt(P(t, x + 1)[0], P(t, x)[0]), lt(P(t, x + 1)[1], P(t, x)[1])))
        op = names_in(match(t, x))
        post = lambda *a: globals()['post'](*a, opaque=op, rounds=2)
        z = z3.IntVal(0)
        out = [post('start: count', ex, A(z)), post('start: pairs', ex, And(B(z, x), C(z, x))),
               post('step: count', ex, A(t + 1), dom + [A(t)]),
               post('step: pairs', ex, B(t + 1, x), dom + [A(t), B(t, x)]),
               post('step: order', ex, C(t + 1, x), dom + [A(t), B(t, x), C(t, x)])]
        y = z3.Int(f'y!{uid()}')
        inv = [A(N), *[B(N, n(N) - 1 - y), B(N, n(N) - 2 - y), C(N, n(N) - 2 - y)]]
        r = lst(ex, res)
        if r is None:
            return [post('is a list of index pairs', ex, False)]
        k, f = r
        d = [y >= 0, y < zi(k)]
        q = f(y)
        d2 = [y >= 0, y + 1 < zi(k)]
        out += [post('pairs: as many as the similarity count', ex, eq(k, L(zi(l1), zi(l2))), inv),
                post('pairs: in range', ex, And(inside(q[0], l1), inside(q[1], l2)), d + inv),
                post('pairs: within eps and inside the constraint', ex, match(*q), d + inv),
                post('pairs: strictly increasing', ex, And(lt(f(y)[0], f(y + 1)[0]), lt(f(y)[1], f(y + 1)[1])), d2 + inv)]
        return out


contract(['P08'], LcssPath('_njit_return_lcss_path'))
contract(['P08'], LcssPath('_njit_return_lcss_path_from_dist_matrix', mat=True))
contract(['P08', 'P17'], LcssPath('_return_lcss_path', backend=True))
contract(['P08', 'P17'], LcssPath('_return_lcss_path_from_dist_matrix', mat=True, backend=True))


# ---- the count is the largest number of pairs of a common subsequence ----
def opaque_L(ex):
    l1, l2 = sizes(ex, 'l1', 'l2')
    M_ = VFn('match', [z3.IntSort()] * 2, 'B')
    match = lambda i, j: M_(zi(i), zi(j))
    return l1, l2, match, lcss_spec(ex, match)


def induct_L(ex, H, label, extra=()):
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    return [post(f'{label}: border', ex, And(H(p, z3.IntVal(0)), H(z3.IntVal(0), q)), [p >= 0, q >= 0, *extra]),
            post(f'{label}: interior', ex, H(p, q), [p >= 1, q >= 1, H(p - 1, q), H(p, q - 1), H(p - 1, q - 1), *extra])]


def lcss_bounds(ex):
    l1, l2, match, L = opaque_L(ex)
    return induct_L(ex, lambda p, q: And(L(p, q) >= 0, L(p, q) <= p, L(p, q) <= q), 'between 0 and the shorter length')


def lcss_monotone(ex):
    l1, l2, match, L = opaque_L(ex)
    # L grows by 0 or 1 along each axis
    H = lambda p, q: And(Implies(p >= 1, And(L(p, q) >= L(p - 1, q), L(p, q) <= L(p - 1, q) + 1)),
                         Implies(q >= 1, And(L(p, q) >= L(p, q - 1), L(p, q) <= L(p, q - 1) + 1)))
    return induct_L(ex, H, 'unit growth')


def lcss_maximal(ex):
    """every strictly increasing sequence of matching pairs is at most as long as the count (monotone: lemma 'unit growth')"""
    l1, l2, match, L = opaque_L(ex)
    n, x = sizes(ex, 'n'), z3.Int(f'x!{uid()}')
    Q = VFn('Q', [z3.IntSort()], ('T', ['I', 'I']))

    def unf(x):
        q, p = Q(x), Q(z3.simplify(x - 1))
        return [Implies(And(x >= 0, x < n), And(inside(q[0], l1), inside(q[1], l2), match(*q))), Implies(And(x >= 1, x < n), And(lt(p[0], q[0]), lt(p[1], q[1])))]
    Q.unfold = unf
    H = lambda y: L(Q(y)[0] + 1, Q(y)[1] + 1) >= y + 1
    mono = lambda a, b, c, d: Implies(And(a <= c, b <= d), L(a, b) <= L(c, d))
    e = n - 1
    return [post('first pair', ex, H(z3.IntVal(0)), [L(Q(z3.IntVal(0))[0], Q(z3.IntVal(0))[1]) >= 0]),
            post('every pair', ex, H(x + 1), [x >= 0, x + 1 < n, H(x), mono(Q(x)[0] + 1, Q(x)[1] + 1, Q(x + 1)[0], Q(x + 1)[1])]),
            post('whole sequence', ex, L(l1, l2) >= n, [H(e), mono(Q(e)[0] + 1, Q(e)[1] + 1, l1, l2)])]


def lcss_mono2(ex):
    """monotone in both arguments (from unit growth, by induction on the distance)"""
    l1, l2, match, L = opaque_L(ex)
    a, b, k, m = (z3.Int(f'{c}!{uid()}') for c in 'abkm')
    d = [a >= 0, b >= 0, k >= 0, m >= 0]
    return [post('rows', ex, L(a, b) <= L(a + k + 1, b), d + [L(a, b) <= L(a + k, b), L(a + k, b) <= L(a + k + 1, b)], rounds=0),
            post('columns', ex, L(a, b) <= L(a + k, b + m + 1), d + [L(a, b) <= L(a + k, b + m), L(a + k, b + m) <= L(a + k, b + m + 1)], rounds=0)]


def lcss_sym(ex):
    l1, l2, match, L = opaque_L(ex)
    T = lcss_spec(ex, lambda i, j: match(j, i))
    return induct_L(ex, lambda p, q: L(p, q) == T(q, p), 'transposing the matches transposes the counts')


def lcss_self(ex):
    l1, l2, match, L = opaque_L(ex)
    x = z3.Int(f'x!{uid()}')
    return [post('first', ex, L(z3.IntVal(0), z3.IntVal(0)) == 0), post('step', ex, L(x, x) == x, [x >= 1, L(x - 1, x - 1) == x - 1, match(x - 1, x - 1)])]


def lcss_wider(ex):
    l1, l2, match, L = opaque_L(ex)
    W = VFn('more', [z3.IntSort()] * 2, 'B')
    W.unfold = lambda i, j: [Implies(match(i, j), W(i, j))]
    T = lcss_spec(ex, lambda i, j: W(zi(i), zi(j)))
    G = lambda p, q: And(Implies(And(p >= 1, q >= 0), L(p, q) <= L(p - 1, q) + 1), Implies(And(q >= 1, p >= 0), L(p, q) <= L(p, q - 1) + 1),
                         L(p - 1, q) <= L(p - 1, q - 1) + 1, L(p, q - 1) <= L(p - 1, q - 1) + 1)
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    H = lambda p, q: L(p, q) <= T(p, q)
    return [post('border', ex, And(H(p, z3.IntVal(0)), H(z3.IntVal(0), q)), [p >= 0, q >= 0]),
            post('interior', ex, H(p, q), [p >= 1, q >= 1, H(p - 1, q), H(p, q - 1), H(p - 1, q - 1), G(p, q)])]


for nm, b in (('between 0 and the shorter length', lcss_bounds), ('unit growth', lcss_monotone), ('monotone', lcss_mono2), ('no common subsequence is longer', lcss_maximal),
              ('symmetric', lcss_sym), ('a series matches itself', lcss_self), ('more matches, larger count', lcss_wider)):
    lemma(['P08'], Lemma('lcss: ' + nm, b))


# ---- public functions ----
class PubLcss(Contract):
    variants = PV
    only_raises = True
    qual = M + 'lcss'

    def params(self, ex, variant):
        b, g, r, s = variant
        n, m, d1, d2 = sizes(ex, 'n1', 'n2', 'd1', 'd2')
        return dict(s1=padded(ex, 's1', n, d1, lo=1), s2=padded(ex, 's2', m, d2, lo=1), eps=ex.mkval('eps', FIN), be=models.BackendV(b), **mask_params(ex, (g, r, s)))

    def requires(self, ex, v):
        t1, t2 = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        return mask_requires(v) + [('finite values', And(finite_cells(ex, t1), finite_cells(ex, t2))), ('non-empty', And(le(1, t1.shape[0]), le(1, t2.shape[0])))]

    def raises(self, ex, v):
        t1, t2 = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        bad = Not(eq(t1.shape[1], t2.shape[1]))
        return [Raises(bad, 'ValueError')] + [Raises(And(Not(bad), r.cond), r.name, r.may) for r in mask_raises(v)]

    def setup(self, ex, v):
        w = {**v, 's1': trimmed(ex, v['s1']), 's2': trimmed(ex, v['s2'])}
        l1, l2 = dims(w)
        cell = mask_cell(v, l1, l2)
        w['mask'] = ex.new_arr((l1, l2), cell, 'b')
        match = matcher(ex, w)
        return w, l1, l2, match, lcss_spec(ex, match)

    def score(self, L, l1, l2):
        return div(toX(L(zi(l1), zi(l2))), toX(ite(le(l1, l2), zi(l1), zi(l2))))

    def spec(self, ex, v):
        w, l1, l2, match, L = self.setup(ex, v)
        return self.score(L, l1, l2)


class PubLcssPath(PubLcss):
    qual = M + 'lcss_path'

    def spec(self, ex, v):
        w, l1, l2, match, L = self.setup(ex, v)
        return lcss_path_value(ex, L, match, l1, l2), self.score(L, l1, l2)

    def obligations(self, ex, res, v):
        w, l1, l2, match, L = self.setup(ex, v)
        if not (isinstance(res, tuple) and len(res) == 2):
            return [post('result: (path, score)', ex, False)]
        return lcss_path_obls(ex, res[0], L, match, l1, l2) + equal_obls(ex, res[1], self.score(L, l1, l2), self, 'score')


contract(['P08', 'P03', 'P17'], PubLcss())
contract(['P08', 'P03', 'P17'], PubLcssPath())
