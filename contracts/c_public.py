"""Public single-pair distances: trimming of padding, error conditions, constraint names, both backends."""
from .c_wrap import *
from .c_size import size_of, as_series
from .registry import contract

NAMES = (None, 'itakura', 'sakoe_chiba')
PV = tuple((b, g, r, s) for b in ('numpy', 'torch') for g in NAMES for r, s in ((False, False), (True, False), (False, True), (True, True)))


def trimmed(ex, s):
    s = as_series(ex, s)
    r = ex.reader(s)
    return ex.new_arr((size_of(ex, s), s.shape[1]), r)


class PubDist(Contract):
    variants = PV
    only_raises = True
    KERN = Dist

    def __init__(self, kind, qual):
        self.kind, self.qual = kind, qual

    def params(self, ex, variant):
        b, g, r, s = variant
        n, m, d1, d2 = sizes(ex, 'n1', 'n2', 'd1', 'd2')
        return dict(s1=padded(ex, 's1', n, d1), s2=padded(ex, 's2', m, d2), be=models.BackendV(b), **mask_params(ex, (g, r, s)))

    def requires(self, ex, v):
        t1, t2 = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        return mask_requires(v) + [('finite values', And(finite_cells(ex, t1), finite_cells(ex, t2)))]

    def raises(self, ex, v):
        t1, t2 = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        bad = Or(le(t1.shape[0], 0), le(t2.shape[0], 0), Not(eq(t1.shape[1], t2.shape[1])))
        return [Raises(bad, 'ValueError')] + [Raises(And(Not(bad), r.cond), r.name, r.may) for r in mask_raises(v)]

    def kern(self, ex, v):
        k = self.KERN(self.kind, None)
        return k, {**v, 's1': trimmed(ex, v['s1']), 's2': trimmed(ex, v['s2'])}

    def spec(self, ex, v):
        k, w = self.kern(ex, v)
        return k.spec(ex, w)


class PubPath(PubDist):
    KERN = DistPath

    def spec(self, ex, v):
        s, p = super().spec(ex, v)
        return p, s

    def obligations(self, ex, res, v):
        k, w = self.kern(ex, v)
        if isinstance(res, tuple) and len(res) == 2:
            res = res[::-1]
        return k.obligations(ex, res, w)


for kind, mod, ps in (('dtw', '_dtw', ['P01', 'P03']), ('frechet', '_frechet', ['P04', 'P03'])):
    contract(ps + ['P17', 'P05'], PubDist(kind, f'tslearn.metrics.{mod}.{kind}'))
    contract(['P02', 'P03', 'P17'], PubPath(kind, f'tslearn.metrics.{mod}.{kind}_path'))
