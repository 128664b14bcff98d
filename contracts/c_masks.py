"""Global constraint masks."""
from .common import *
from .registry import contract

MASKS = ['P03', 'P01', 'P04', 'P05', 'P08']


def sakoe_cell(n, m, r, i, j):
    """|i-j| within the radius of the length-corrected diagonal band"""
    return ite(lt(m, n),
               And(le(i_sub(j, r), i), le(i, i_add(j, i_add(i_sub(n, m), r)))),
               And(le(i_sub(i, r), j), le(j, i_add(i, i_add(i_sub(m, n), r)))))


class Sakoe(Contract):
    def __init__(self, qual):
        self.qual = qual

    def params(self, ex, variant):
        n, m = sizes(ex, 'sz1', 'sz2')
        r = sizes(ex, 'radius', lo=0)
        return dict(sz1=n, sz2=m, radius=r)

    def requires(self, ex, v):
        return [('radius >= 0', le(0, v['radius'])), ('sizes', And(le(1, v['sz1']), le(1, v['sz2'])))]

    def spec(self, ex, v):
        n, m, r = v['sz1'], v['sz2'], v['radius']
        return ex.new_arr((n, m), lambda i: sakoe_cell(n, m, r, *i), 'b')


def rnd2(x):
    return models.xround(x, 2)


def itakura_cell(n, m, s, i, j):
    """documented parallelogram: both bounds (rounded to 2 decimals) of column j"""
    q = div(toX(n), toX(m))
    smin, smax = mul(div(1, s), q), mul(s, q)
    n1, m1 = toX(i_sub(n, 1)), toX(i_sub(m, 1))
    jj = toX(j)
    lo = xmax(rnd2(mul(smin, jj)), rnd2(add(sub(n1, mul(smax, m1)), mul(smax, jj))))
    hi = xmin(rnd2(mul(smax, jj)), rnd2(add(sub(n1, mul(smin, m1)), mul(smin, jj))))
    return And(le(lo, toX(i)), le(toX(i), hi))


class Itakura(Contract):
    def __init__(self, qual):
        self.qual = qual

    def params(self, ex, variant):
        n, m = sizes(ex, 'sz1', 'sz2')
        s = ex.mkval('max_slope', FIN)
        ex.pc.append(zb(le(1, s)))
        return dict(sz1=n, sz2=m, max_slope=s)

    def requires(self, ex, v):
        return [('slope >= 1', le(1, v['max_slope'])), ('sizes', And(le(1, v['sz1']), le(1, v['sz2'])))]

    def raises(self, ex, v):
        return [Raises(True, 'RuntimeWarning', may=True)]

    def spec(self, ex, v):
        n, m, s = v['sz1'], v['sz2'], v['max_slope']
        return ex.new_arr((n, m), lambda i: itakura_cell(n, m, s, *i), 'b')


for k in ('_njit_sakoe_chiba_mask', '_sakoe_chiba_mask'):
    contract(MASKS, Sakoe('tslearn.metrics._masks.' + k))
for k in ('_njit_itakura_mask', '_itakura_mask'):
    contract(MASKS, Itakura('tslearn.metrics._masks.' + k))

VARS = tuple((g, r, s) for g in (0, 1, 2) for r in (False, True) for s in (False, True))


def mask_params(ex, variant):
    """(global_constraint, radius given?, slope given?)"""
    g, r, s = variant
    rad = sizes(ex, 'radius', lo=0) if r else None
    sl = None
    if s:
        sl = ex.mkval('max_slope', FIN)
        ex.pc.append(zb(le(1, sl)))
    return dict(global_constraint=g, sakoe_chiba_radius=rad, itakura_max_slope=sl)


def mask_requires(v):
    out = []
    if v['sakoe_chiba_radius'] is not None:
        out.append(('radius >= 0', le(0, v['sakoe_chiba_radius'])))
    if v['itakura_max_slope'] is not None:
        out.append(('slope >= 1', le(1, v['itakura_max_slope'])))
    return out


def mask_cell(v, n, m):
    """the requested region; None when the request is ambiguous (RuntimeWarning)"""
    g, r, s = v['global_constraint'], v['sakoe_chiba_radius'], v['itakura_max_slope']
    g = {None: 0, 'itakura': 1, 'sakoe_chiba': 2}.get(g, g) if not z3.is_expr(g) else g
    if g == 0 and r is not None and s is not None:
        return None
    if g == 2 or (g == 0 and r is not None):
        r = 1 if r is None else r
        return lambda i: sakoe_cell(n, m, r, *i)
    if g == 1 or (g == 0 and s is not None):
        s = 2.0 if s is None else s
        return lambda i: itakura_cell(n, m, toX(s), *i)
    return lambda i: True


def mask_raises(v):
    g, r, s = v['global_constraint'], v['sakoe_chiba_radius'], v['itakura_max_slope']
    c = mask_cell(v, 1, 1)
    if c is None:
        return [Raises(True, 'RuntimeWarning')]
    if g in (1, 'itakura') or (g in (0, None) and s is not None and r is None):
        return [Raises(True, 'RuntimeWarning', may=True)]
    return []


class ComputeMask(Contract):
    variants = VARS
    only_raises = True

    def __init__(self, qual):
        self.qual = qual

    def params(self, ex, variant):
        n, m = sizes(ex, 'sz1', 'sz2')
        return dict(sz1=n, sz2=m, **mask_params(ex, variant))

    def requires(self, ex, v):
        return mask_requires(v) + [('sizes', And(le(1, v['sz1']), le(1, v['sz2'])))]

    def raises(self, ex, v):
        return mask_raises(v)

    def spec(self, ex, v):
        n, m = v['sz1'], v['sz2']
        return ex.new_arr((n, m), mask_cell(v, n, m), 'b')


for k in ('_njit_compute_mask', '_compute_mask'):
    contract(MASKS, ComputeMask('tslearn.metrics._masks.' + k))


class PublicMask(ComputeMask):
    """compute_mask of two lengths"""

    def params(self, ex, variant):
        n, m = sizes(ex, 'sz1', 'sz2')
        return dict(s1=n, s2=m, be=None, **mask_params(ex, variant))

    def requires(self, ex, v):
        return mask_requires(v) + [('sizes', And(le(1, lenof(v['s1'])), le(1, lenof(v['s2']))))]

    def spec(self, ex, v):
        n, m = lenof(v['s1']), lenof(v['s2'])
        return ex.new_arr((n, m), mask_cell(v, n, m), 'b')


def lenof(s):
    return s.shape[0] if isinstance(s, Arr) else s


class PublicMaskSeries(PublicMask):
    """compute_mask of two series"""

    def params(self, ex, variant):
        n, m, d = sizes(ex, 'sz1', 'sz2', 'd')
        return dict(s1=sym_arr(ex, 's1', (n, d)), s2=sym_arr(ex, 's2', (m, d)), be=None, **mask_params(ex, variant))


contract(MASKS, PublicMask('tslearn.metrics._masks.compute_mask'))
contract(MASKS, PublicMaskSeries('tslearn.metrics._masks.compute_mask'), key='tslearn.metrics._masks.compute_mask (series)', use=False)


class PubSakoe(Sakoe):
    def params(self, ex, variant):
        return dict(super().params(ex, variant), be=None)


class PubItakura(Itakura):
    def params(self, ex, variant):
        return dict(super().params(ex, variant), be=None)


contract(MASKS, PubSakoe('tslearn.metrics._masks.sakoe_chiba_mask'))
contract(MASKS, PubItakura('tslearn.metrics._masks.itakura_mask'))
