"""Subsequence DTW."""
from .dpspec import *
from .pathspec import *
from .c_public import trimmed
from .c_wrap import xsqrt, free_path, prefix_cost
from .registry import contract, lemma

M = 'tslearn.metrics.dtw_variants.'


def sub_spec(ex, cost):
    """S(p,q): least cost of aligning the first p points of the query with a part of the long series ending before q"""
    def body(S, p, q):
        v = add(cost(p - 1, q - 1), min3(S(p - 1, q), S(p, q - 1), S(p - 1, q - 1)))
        return ite(p <= 0, XR(rv(0)), ite(q <= 0, INF, v))
    return ex.define('S_sub', 2, EXT, body)


class SubMatrix(Contract):
    def __init__(self, name, be=False):
        self.qual, self.be = M + name, be
        if be:
            self.variants = ('numpy', 'torch')

    def params(self, ex, variant):
        l1, l2, d = sizes(ex, 'l1', 'l2', 'd')
        v = dict(subseq=sym_arr(ex, 'q', (l1, d)), longseq=sym_arr(ex, 's', (l2, d)))
        if self.be:
            v['be'] = models.BackendV(variant)
        return v

    def requires(self, ex, v):
        a, b = v['subseq'], v['longseq']
        return [('feature sizes agree', eq(a.shape[1], b.shape[1])), ('finite values', And(finite_cells(ex, a), finite_cells(ex, b))),
                ('non-empty', And(le(1, a.shape[0]), le(1, b.shape[0])))]

    def rec(self, ex, a, b):
        c = sqdist(ex, finite_reader(ex, a), finite_reader(ex, b), a.shape[1])
        return sub_spec(ex, c)

    def spec(self, ex, v):
        a, b = v['subseq'], v['longseq']
        return acc_arr(ex, self.rec(ex, a, b), a.shape[0], b.shape[0])


contract(['P09'], SubMatrix('_njit_subsequence_cost_matrix'))
contract(['P09', 'P17'], SubMatrix('_subsequence_cost_matrix', be=True))


class PubSubMatrix(SubMatrix):
    def params(self, ex, variant):
        n, m, d1, d2 = sizes(ex, 'n1', 'n2', 'd1', 'd2')
        return dict(subseq=padded(ex, 'q', n, d1, lo=1), longseq=padded(ex, 's', m, d2, lo=1), be=models.BackendV(variant))

    def trim(self, ex, v):
        return trimmed(ex, v['subseq']), trimmed(ex, v['longseq'])

    def requires(self, ex, v):
        a, b = self.trim(ex, v)
        return [('finite values', And(finite_cells(ex, a), finite_cells(ex, b))), ('non-empty', And(le(1, a.shape[0]), le(1, b.shape[0])))]

    def raises(self, ex, v):
        return [Raises(Not(eq(v['subseq'].shape[1], v['longseq'].shape[1])), 'ValueError')]

    def spec(self, ex, v):
        a, b = self.trim(ex, v)
        return acc_arr(ex, self.rec(ex, a, b), a.shape[0], b.shape[0])


contract(['P09', 'P17'], PubSubMatrix('subsequence_cost_matrix', be=True))


def sub_path_obls(ex, res, l1, l2, end, acc, label='path'):
    t = lst(ex, res)
    if t is None:
        return [post(f'{label}: is a list of index pairs', ex, False)]
    n, f = t
    out = [post(f'{label}: not empty', ex, le(1, n)),
           post(f'{label}: starts at the first point of the query', ex, eq(f(0)[0], 0)),
           post(f'{label}: ends at the last point of the query', ex, eq(f(i_sub(n, 1)), (i_sub(l1, 1), end)))]
    x = z3.Int(f'x!{uid()}')
    ex.pc.append(And(x >= 0, x + 1 < zi(n)))
    p, q = f(x), f(x + 1)
    out += [post(f'{label}: indices in range', ex, And(inside(p[0], l1), inside(p[1], l2), inside(q[0], l1), inside(q[1], l2))),
            post(f'{label}: unit monotone steps', ex, step_ok(p, q)),
            post(f'{label}: every step comes from a best predecessor', ex, best_pred(acc, p, q), rounds=6)]
    ex.pc.pop()
    return out


def sub_path_value(ex, l1, l2, end, acc):
    P = VFn('path', [z3.IntSort()], ('T', ['I', 'I']))
    n = z3.Int(f'npath!{uid()}')
    ex.facts.append(n >= 1)

    def unf(x):
        q, p = P(x), P(z3.simplify(x - 1))
        return [Implies(And(x >= 0, x < n), And(inside(q[0], l1), inside(q[1], l2))), Implies(x == 0, eq(q[0], 0)),
                Implies(x == n - 1, eq(q, (i_sub(l1, 1), end))), Implies(And(x >= 1, x < n), And(le(1, q[0]), step_ok(p, q), best_pred(acc, p, q)))]
    P.unfold = unf
    st, c = Store('path'), Cell('npath')
    ex.heap[st] = lambda i: P(zi(i[0]))
    ex.cells[c] = n
    return SList(st, c)


class SubPath(Contract):
    rounds = 5

    def __init__(self, name, be=False):
        self.qual, self.be = M + name, be
        if be:
            self.variants = ('numpy', 'torch')

    def params(self, ex, variant):
        l1, l2 = sizes(ex, 'l1', 'l2')
        e = sizes(ex, 'end', lo=0)
        ex.pc.append(e < l2)
        v = dict(acc_cost_mat=sym_arr(ex, 'acc', (l1, l2), EXT), idx_path_end=e)
        if self.be:
            v['be'] = models.BackendV(variant)
        return v

    def requires(self, ex, v):
        a = v['acc_cost_mat']
        return [('non-empty', And(le(1, a.shape[0]), le(1, a.shape[1]))), ('end index', inside(v['idx_path_end'], a.shape[1]))]

    def spec(self, ex, v):
        a = v['acc_cost_mat']
        return sub_path_value(ex, a.shape[0], a.shape[1], v['idx_path_end'], ex.reader(a))

    def obligations(self, ex, res, v):
        a = v['acc_cost_mat']
        return sub_path_obls(ex, res, a.shape[0], a.shape[1], v['idx_path_end'], ex.reader(a))


contract(['P09', 'P02'], SubPath('_njit_subsequence_path'))
contract(['P09', 'P02', 'P17'], SubPath('_subsequence_path', be=True))
contract(['P09', 'P02', 'P17'], SubPath('subsequence_path', be=True))


class PubSubPath(PubSubMatrix):
    """(path, score): the score is the square root of the smallest value of the last row, the path ends there"""

    def setup(self, ex, v):
        a, b = self.trim(ex, v)
        S = self.rec(ex, a, b)
        n, m = a.shape[0], b.shape[0]
        return S, n, m, acc_arr(ex, S, n, m)

    def spec(self, ex, v):
        S, n, m, A = self.setup(ex, v)
        e = z3.Int(f'end!{uid()}')
        q = z3.Int(f'q!{uid()}')
        ex.facts += [And(e >= 0, e < zi(m))]
        return sub_path_value(ex, n, m, e, ex.reader(A)), xsqrt(S(zi(n), e + 1))

    def obligations(self, ex, res, v):
        S, n, m, A = self.setup(ex, v)
        if not (isinstance(res, tuple) and len(res) == 2):
            return [post('result: (path, score)', ex, False)]
        t = lst(ex, res[0])
        if t is None:
            return [post('path: is a list of index pairs', ex, False)]
        k, f = t
        end = f(i_sub(k, 1))[1]
        q = z3.Int(f'q!{uid()}')
        last = S(zi(n), zi(end) + 1)
        return sub_path_obls(ex, res[0], n, m, end, ex.reader(A)) + [
            post('score: value of the last pair', ex, same(res[1], xsqrt(last))),
            post('score: smallest of the last row', ex, Implies(inside(q, m), le(last, S(zi(n), q + 1))))]


contract(['P09', 'P02', 'P17'], PubSubPath('dtw_subsequence_path', be=True))


# ---- the recurrence is the optimum over all contiguous parts ----
def sub_opaque(ex):
    l1, l2 = sizes(ex, 'l1', 'l2')
    c = VFn('cost', [z3.IntSort()] * 2, FIN)
    c.unfold = lambda i, j: [le(0, c(i, j))]
    cost = lambda i, j: c(zi(i), zi(j))
    return l1, l2, cost, sub_spec(ex, cost)


def sub_path_fn(ex, l1, l2, n):
    P = VFn('Q', [z3.IntSort()], ('T', ['I', 'I']))

    def unf(x):
        q, p = P(x), P(z3.simplify(x - 1))
        return [Implies(And(x >= 0, x < n), And(inside(q[0], l1), inside(q[1], l2))), Implies(x == 0, eq(q[0], 0)), Implies(And(x >= 1, x < n), step_ok(p, q))]
    P.unfold = unf
    return P


def sub_minimal(ex):
    """no alignment of the query with a contiguous part is cheaper"""
    l1, l2, c, S = sub_opaque(ex)
    n, x = sizes(ex, 'n'), z3.Int(f'x!{uid()}')
    P = sub_path_fn(ex, l1, l2, n)
    C = prefix_cost(P, c, dtw_combine, XR(rv(0)))
    H = lambda y: le(S(i_add(P(y)[0], 1), i_add(P(y)[1], 1)), C(y))
    return [post('first prefix', ex, H(z3.IntVal(0))), post('every prefix', ex, H(x + 1), [x >= 0, x + 1 < n, H(x)], rounds=4)]


def sub_attained(ex):
    """the backtracked path has exactly the accumulated cost, and finite"""
    l1, l2, c, S = sub_opaque(ex)
    acc = ex.reader(acc_arr(ex, S, l1, l2))
    e = sizes(ex, 'end', lo=0)
    ex.pc.append(e < l2)
    n, f = lst(ex, sub_path_value(ex, l1, l2, e, acc))
    C = prefix_cost(f, c, dtw_combine, XR(rv(0)))
    H = lambda y: same(acc(f(y)), C(y))
    x = z3.Int(f'x!{uid()}')
    N = lambda p, q: le(0, S(p, q))
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    f0 = f(z3.IntVal(0))
    return [post('values are non-negative: border', ex, And(N(z3.IntVal(0), q), N(p, z3.IntVal(0))), [p >= 0, q >= 0]),
            post('values are non-negative', ex, N(p, q), [p >= 1, q >= 1, N(p - 1, q), N(p, q - 1), N(p - 1, q - 1)]),
            post('first prefix', ex, H(z3.IntVal(0)), [N(i_add(f0[0], 1), f0[1])], rounds=4),
            post('every prefix', ex, H(x + 1), [x >= 0, x + 1 < n, H(x)], rounds=4)]


lemma(['P09', 'P02'], Lemma('subsequence dtw: no alignment is cheaper', sub_minimal))
lemma(['P09', 'P02'], Lemma('subsequence dtw: the path has the reported cost', sub_attained))
