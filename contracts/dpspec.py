"""Specification of min-plus style dynamic programs over warping paths.

S(p,q) (p,q >= 0) is the value of the best admissible path reaching cell
(p-1,q-1):  S(0,0)=0, S(p,0)=S(0,q)=+inf, S(p,q)=+inf on masked cells and
otherwise  combine(cost(p-1,q-1), min(S(p-1,q), S(p,q-1), S(p-1,q-1))).
"""
from .common import *


def min3(a, b, c):
    return xmin(xmin(a, b), c)


def dp_spec(ex, name, cost, mask, combine, tpl=EXT):
    def body(S, p, q):
        pred = min3(S(p - 1, q), S(p, q - 1), S(p - 1, q - 1))
        v = ite(truth(mask((p - 1, q - 1))), combine(cost(p - 1, q - 1), pred), INF)
        return ite(And(p == 0, q == 0), XR(rv(0)), ite(Or(p <= 0, q <= 0), INF, v))
    return ex.define(name, 2, tpl, body)


def acc_arr(ex, S, l1, l2):
    a = ex.new_arr((l1, l2), lambda i: S(i_add(i[0], 1), i_add(i[1], 1)))
    a.ind = (S, lambda x, y: (simp_int(x - 1), simp_int(y - 1)), lambda w: i_add(w[0], w[1]))
    return a


def dtw_combine(c, p):
    return add(c, p)


def fre_combine(c, p):
    return xmax(c, p)


def spec_acc(ex, kind, s1, s2, mask):
    r1, r2, m = finite_reader(ex, s1), finite_reader(ex, s2), ex.reader(mask)
    c = sqdist(ex, r1, r2, s1.shape[1])
    S = dp_spec(ex, f'S_{kind}', c, m, dtw_combine if kind == 'dtw' else fre_combine)
    return S


def spec_acc_D(ex, kind, D, mask):
    r, m = finite_reader(ex, D), ex.reader(mask)
    return dp_spec(ex, f'S_{kind}', lambda i, j: r((i, j)), m, dtw_combine if kind == 'dtw' else fre_combine)


class AccMatrix(Contract):
    def __init__(self, kind):
        self.kind = kind
        self.qual = f'tslearn.metrics._{kind}._njit_accumulated_matrix'

    def params(self, ex, variant):
        l1, l2, d = sizes(ex, 'l1', 'l2', 'd')
        return dict(s1=sym_arr(ex, 's1', (l1, d)), s2=sym_arr(ex, 's2', (l2, d)), mask=sym_arr(ex, 'mask', (l1, l2), 'B'))

    def requires(self, ex, v):
        return [('feature sizes agree', eq(v['s1'].shape[1], v['s2'].shape[1])),
                ('mask rows', eq(v['mask'].shape[0], v['s1'].shape[0])),
                ('finite values', And(finite_cells(ex, v['s1']), finite_cells(ex, v['s2']))),
                ('mask columns', eq(v['mask'].shape[1], v['s2'].shape[0])),
                ('non-empty', And(le(1, v['s1'].shape[0]), le(1, v['s2'].shape[0])))]

    def spec(self, ex, v):
        S = spec_acc(ex, self.kind, v['s1'], v['s2'], v['mask'])
        return acc_arr(ex, S, v['s1'].shape[0], v['s2'].shape[0])


class AccMatrixD(Contract):
    def __init__(self, kind):
        self.kind = kind
        self.qual = f'tslearn.metrics._{kind}._njit_acc_matrix_from_dist_matrix'

    def params(self, ex, variant):
        l1, l2 = sizes(ex, 'l1', 'l2')
        return dict(D=sym_arr(ex, 'D', (l1, l2)), mask=sym_arr(ex, 'mask', (l1, l2), 'B'))

    def requires(self, ex, v):
        return [('finite distances', finite_cells(ex, v['D'])), ('mask shape', And(eq(v['mask'].shape[0], v['D'].shape[0]), eq(v['mask'].shape[1], v['D'].shape[1]))),
                ('non-empty', And(le(1, v['D'].shape[0]), le(1, v['D'].shape[1])))]

    def spec(self, ex, v):
        S = spec_acc_D(ex, self.kind, v['D'], v['mask'])
        return acc_arr(ex, S, *v['D'].shape)
