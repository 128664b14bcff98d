"""Pairwise matrices: entry (i,j) is the single-pair function on the trimmed series i and j."""
from .c_public import *
from .registry import contract

UTIL = 'tslearn.metrics.utils.'


class CdistGeneric(Contract):
    """for an arbitrary dist_fun(a, b, *args, **kwargs) and arbitrary series"""
    qual = UTIL + '_cdist_generic'
    variants = tuple((s, d, j, b) for s in (True, False) for d in (True, False) for j in (None, 1, 'sym') for b in ('numpy', 'torch'))

    def params(self, ex, variant):
        self_, diag, jobs, b = variant
        n, m = sizes(ex, 'n1', 'n2')
        D = VFn('dist', [U, U, U, z3.IntSort()], EXT)

        def dist(ex, x, y, *a, **kw):
            o = kw.pop('opt')
            if kw or a:
                raise Unsupported('unexpected arguments of dist_fun')
            return D(x, y, o, z3.IntVal(0))
        j = jobs
        if jobs == 'sym':
            j = z3.Int(f'n_jobs!{uid()}')
            ex.pc.append(j != 1)
        return dict(dist_fun=models.Prim('dist_fun', dist), dataset1=sym_arr(ex, 'X', (n,), 'U'),
                    dataset2=None if self_ else sym_arr(ex, 'Y', (m,), 'U'), n_jobs=j, verbose=0,
                    be=models.BackendV(b), compute_diagonal=diag, opt=z3.Const('opt', U))

    def spec(self, ex, v):
        f, X, Y = v['dist_fun'], v['dataset1'], v['dataset2']
        kw = v['kwargs'] if 'kwargs' in v else {'opt': v['opt']}
        args = v.get('args', ())
        rem = True
        n1 = X.shape[0]
        Z = X if Y is None else Y

        def pair(i, j):
            a, b = ex.getitem(X, i), ex.getitem(Z, j)
            ts = ex.contracts[U_TS]
            s = [ts.apply(ex, dict(ts=q, remove_nans=True, backend=v['be'])) for q in (a, b)]
            return ex.call(f, tuple(s) + tuple(args), dict(kw))
        return pair_matrix(ex, n1, Z.shape[0], pair, Y is None, v['compute_diagonal'])


U_TS = 'tslearn.utils.utils._to_time_series'


contract(['P05', 'P01', 'P04', 'P06', 'P07', 'P17'], CdistGeneric())


class CdistKind(Contract):
    """cdist_dtw / cdist_frechet on (padded) array datasets"""
    only_raises = True

    def __init__(self, kind, qual, public):
        self.kind, self.qual, self.public = kind, qual, public
        self.variants = tuple((s, b, g, r, sl) for s in (True, False) for b in ('numpy', 'torch') for g in NAMES
                              for r, sl in ((False, False), (True, False), (False, True), (True, True))
                              if (g is None or not (r and sl)) and (g != 'sakoe_chiba' or not sl))

    def params(self, ex, variant):
        s, b, g, r, sl = variant
        n, m, sz1, sz2, d = sizes(ex, 'n1', 'n2', 'sz1', 'sz2', 'd')
        d2 = sizes(ex, 'd2') if self.public else d
        # at least two series: an empty triangle never evaluates the distance
        ex.pc.append(n >= 2)
        return dict(dataset1=padded_ds(ex, 'X', n, sz1, d, 1), dataset2=None if s else padded_ds(ex, 'Y', m, sz2, d2, 1),
                    be=models.BackendV(b), **mask_params(ex, (g, r, sl)))

    def requires(self, ex, v):
        return mask_requires(v)

    def raises(self, ex, v):
        bad = False
        if self.public and v['dataset2'] is not None:
            bad = Not(eq(v['dataset1'].shape[2], v['dataset2'].shape[2]))
        return [Raises(bad, 'ValueError')] + [Raises(And(Not(bad), r.cond), r.name, r.may) for r in mask_raises(v)]

    def spec(self, ex, v):
        X, Y = v['dataset1'], v['dataset2']
        Z = X if Y is None else Y
        k = Dist(self.kind, None)

        def pair(i, j):
            w = {**v, 's1': trimmed(ex, ex.getitem(X, i)), 's2': trimmed(ex, ex.getitem(Z, j))}
            return k.spec(ex, w)
        return pair_matrix(ex, X.shape[0], Z.shape[0], pair, Y is None)


for kind, ps in (('dtw', ['P05', 'P01', 'P03']), ('frechet', ['P05', 'P04', 'P03'])):
    contract(ps + ['P17'], CdistKind(kind, f'tslearn.metrics._{kind}._cdist_{kind}', False))
    contract(ps + ['P17'], CdistKind(kind, f'tslearn.metrics._{kind}.cdist_{kind}', True))
