"""Global alignment kernel."""
from .dpspec import *
from .pathspec import post
from .c_public import trimmed
from .c_cdist import pair_matrix
from .registry import contract, lemma

G_ = 'tslearn.metrics._gak.'
EXP, LOG, SQRT = models.unary('exp'), models.unary('log'), models.unary('sqrt')


def gak_rec(ex, gram):
    """G(p,q) = (G(p-1,q) + G(p,q-1) + G(p-1,q-1)) * gram(p-1,q-1), G(0,0) = 1, 0 on the other borders"""
    def body(G, p, q):
        v = mul(add(add(G(p - 1, q), G(p, q - 1)), G(p - 1, q - 1)), gram(p - 1, q - 1))
        return ite(And(p == 0, q == 0), XR(rv(1)), ite(Or(p <= 0, q <= 0), XR(rv(0)), v))
    return ex.define('GAK', 2, FIN, body)


class GakGram(Contract):
    def __init__(self, name):
        self.qual = G_ + name

    def params(self, ex, variant):
        l1, l2 = sizes(ex, 'l1', 'l2')
        return dict(gram=sym_arr(ex, 'gram', (l1, l2)))

    def requires(self, ex, v):
        return [('non-empty', And(le(1, v['gram'].shape[0]), le(1, v['gram'].shape[1]))), ('finite values', finite_cells(ex, v['gram']))]

    def rec(self, ex, v):
        r = finite_reader(ex, v['gram'])
        return gak_rec(ex, lambda i, j: r((i, j)))

    def spec(self, ex, v):
        return self.rec(ex, v)(zi(v['gram'].shape[0]), zi(v['gram'].shape[1]))

    def obligations(self, ex, res, v):
        """the accumulation matrix equals the recurrence (induction on p+q), the result is its last cell"""
        S = self.rec(ex, v)
        n, m = v['gram'].shape
        acc = [s for s in ex.heap if getattr(s, 'nd', None) == 2 and s is not v['gram'].store]
        if len(acc) != 1:
            raise Unsupported('expected one accumulation matrix')
        a = Arr((i_add(n, 1), i_add(m, 1)), acc[0])
        sp = ex.new_arr(a.shape, lambda i: S(zi(i[0]), zi(i[1])))
        sp.ind = (S, lambda x, y: (x, y), lambda w: i_add(w[0], w[1]))
        out = equal_obls(ex, a, sp, self, 'accumulation matrix')
        h = same(ex.rd(a, (zi(n), zi(m))), S(zi(n), zi(m)))
        return out + [post('result is the last cell', ex, same(res, S(zi(n), zi(m))), [h], rounds=0)]


contract(['P07'], GakGram('_njit_gak_from_gram_matrix'))
contract(['P07', 'P17'], GakGram('_gak_from_gram_matrix'))


def local_kernel(d2, sigma):
    """exp(-d2/(2 sigma^2)) / (2 - exp(-d2/(2 sigma^2))), as the library evaluates it"""
    g = div(neg(d2), mul(mul(2, sigma), sigma))
    return EXP(sub(g, LOG(sub(2, EXP(g)))))


def ugak(ex, s1, s2, sigma):
    c = sqdist(ex, finite_reader(ex, s1), finite_reader(ex, s2), s1.shape[1])
    G = gak_rec(ex, lambda i, j: local_kernel(c(i, j), sigma))
    return G(zi(s1.shape[0]), zi(s2.shape[0]))


class UGak(Contract):
    qual = G_ + '_unnormalized_gak'
    variants = ('numpy', 'torch')

    def params(self, ex, variant):
        n, m, d = sizes(ex, 'l1', 'l2', 'd')
        sg = ex.mkval('sigma', FIN)
        ex.pc.append(zb(Not(eq(sg, 0))))
        return dict(s1=sym_arr(ex, 's1', (n, d)), s2=sym_arr(ex, 's2', (m, d)), sigma=sg, backend=models.BackendV(variant))

    def requires(self, ex, v):
        a, b = v['s1'], v['s2']
        return [('feature sizes agree', eq(a.shape[1], b.shape[1])), ('finite values', And(finite_cells(ex, a), finite_cells(ex, b))),
                ('non-empty series', And(le(1, a.shape[0]), le(1, b.shape[0]))), ('sigma is not zero', Not(eq(v['sigma'], 0)))]

    def spec(self, ex, v):
        return ugak(ex, v['s1'], v['s2'], v['sigma'])


contract(['P07', 'P17'], UGak())


class PubGak(Contract):
    variants = ('numpy', 'torch')

    def __init__(self, name, normal):
        self.qual, self.normal = G_ + name, normal

    def params(self, ex, variant):
        n, m, d = sizes(ex, 'n1', 'n2', 'd')
        return dict(s1=padded(ex, 's1', n, d, lo=1), s2=padded(ex, 's2', m, d, lo=1), sigma=ex.mkval('sigma', FIN), be=models.BackendV(variant))

    def raises(self, ex, v):
        return [Raises(eq(v['sigma'], 0), 'ZeroDivisionError')]

    def requires(self, ex, v):
        a, b = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        return [('feature sizes agree', eq(a.shape[1], b.shape[1])), ('finite values', And(finite_cells(ex, a), finite_cells(ex, b))),
                ('non-empty series', And(le(1, a.shape[0]), le(1, b.shape[0])))]

    def spec(self, ex, v):
        a, b = trimmed(ex, v['s1']), trimmed(ex, v['s2'])
        u = lambda x, y: ugak(ex, x, y, v['sigma'])
        if not self.normal:
            return u(a, b)
        return div(u(a, b), mul(SQRT(u(a, a)), SQRT(u(b, b))))


contract(['P07', 'P17'], PubGak('unnormalized_gak', False))
contract(['P07', 'P17'], PubGak('gak', True))


# ---- consequences ----
def opaque_g(ex):
    g = VFn('gram', [z3.IntSort()] * 2, FIN)
    g.unfold = lambda i, j: [g(i, j).v > 0]
    gram = lambda i, j: g(zi(i), zi(j))
    return gram, gak_rec(ex, gram)


def ind2(ex, H, label, extra=()):
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    return [post(f'{label}: border', ex, And(H(p, z3.IntVal(0)), H(z3.IntVal(0), q)), [p >= 0, q >= 0, *extra]),
            post(f'{label}: interior', ex, H(p, q), [p >= 1, q >= 1, H(p - 1, q), H(p, q - 1), H(p - 1, q - 1), *extra])]


def gak_positive(ex):
    gram, G = opaque_g(ex)
    p, q = z3.Int(f'p!{uid()}'), z3.Int(f'q!{uid()}')
    N = lambda p, q: G(p, q).v >= 0
    out = ind2(ex, N, 'never negative')
    # on the first row and column and inside: positive
    P = lambda p, q: Implies(And(p >= 1, q >= 1), G(p, q).v > 0)
    z, o = z3.IntVal(0), z3.IntVal(1)
    return out + [post('positive: corner', ex, G(o, o).v > 0, [N(z, o), N(o, z)]),
                  post('positive: first column', ex, G(p, o).v > 0, [p >= 2, G(p - 1, o).v > 0, N(p, z), N(p - 1, z)]),
                  post('positive: first row', ex, G(o, q).v > 0, [q >= 2, G(o, q - 1).v > 0, N(z, q), N(z, q - 1)]),
                  post('positive: interior', ex, G(p, q).v > 0, [p >= 2, q >= 2, G(p - 1, q).v > 0, G(p, q - 1).v > 0, G(p - 1, q - 1).v > 0])]


def gak_symmetric(ex):
    gram, G = opaque_g(ex)
    H_ = gak_rec(ex, lambda i, j: gram(j, i))
    return ind2(ex, lambda p, q: G(p, q).v == H_(q, p).v, 'transposing the local kernel transposes the values')


def gak_self(ex):
    u = z3.Real(f'u!{uid()}')
    s = SQRT(XR(u)).v
    return [post('normalised value of a series with itself is 1', ex, u / (s * s) == 1, [u > 0, s * s == u])]


def gak_local(ex):
    """local kernel: positive, 1 at distance 0"""
    d, sg = z3.Real(f'd!{uid()}'), z3.Real(f'sg!{uid()}')
    k0 = local_kernel(XR(rv(0)), XR(sg))
    return [post('one at distance zero', ex, k0.v == 1, [sg != 0])]


for nm, b in (('positive', gak_positive), ('symmetric', gak_symmetric), ('self similarity is one', gak_self), ('local kernel of identical points', gak_local)):
    lemma(['P07'], Lemma('gak: ' + nm, b))


def sqrt_inverse(ex):
    a = z3.Real(f'a!{uid()}')
    s, t = SQRT(XR(a)).v, SQRT(XR(1 / a)).v
    return [post('sqrt(1/a) = 1/sqrt(a)', ex, t == 1 / s, [a > 0, s >= 0, s * s == a, t >= 0, t * t == 1 / a])]


lemma(['P07'], Lemma('gak: square root of the inverse', sqrt_inverse))


class CdistGak(Contract):
    only_raises = True

    def __init__(self, name, public):
        self.qual, self.public = G_ + name, public
        self.variants = tuple((s, b) for s in (True, False) for b in ('numpy', 'torch'))

    def params(self, ex, variant):
        s, b = variant
        n, m, sz1, sz2, d = sizes(ex, 'n1', 'n2', 'sz1', 'sz2', 'd')
        ex.pc.append(n >= 2)
        return dict(dataset1=padded_ds(ex, 'X', n, sz1, d, 1), dataset2=None if s else padded_ds(ex, 'Y', m, sz2, d, 1),
                    sigma=ex.mkval('sigma', FIN), be=models.BackendV(b))

    def raises(self, ex, v):
        return [Raises(eq(v['sigma'], 0), 'ZeroDivisionError')]

    def parts(self, ex, v):
        X, Y = v['dataset1'], v['dataset2']
        Z = X if Y is None else Y
        S = lambda D, i: trimmed(ex, ex.getitem(D, i))
        u = lambda A, i, B, j: ugak(ex, S(A, i), S(B, j), v['sigma'])
        n, m = X.shape[0], Z.shape[0]
        Q = generic(ex, (n, m), lambda i, j: u(X, i, Z, j))
        if Y is None:
            return X, Z, True, Q, (lambda i: Q(i, i)), (lambda i: Q(i, i))
        return X, Z, False, Q, generic(ex, (n,), lambda i: u(X, i, X, i)), generic(ex, (m,), lambda j: u(Z, j, Z, j))

    def spec(self, ex, v):
        X, Z, self_, Q, A, B = self.parts(ex, v)
        P = lambda i, j: div(Q(i, j), mul(SQRT(A(i)), SQRT(B(j))))
        # with a single dataset the kernel is evaluated once per unordered pair
        return ex.new_arr((X.shape[0], Z.shape[0]), lambda x: ite(lt(x[1], x[0]), P(x[1], x[0]), P(*x)) if self_ else P(*x))

    def obligations(self, ex, res, v):
        X, Z, self_, Q, A, B = self.parts(ex, v)
        sp = self.spec(ex, v)
        if not isinstance(res, Arr) or res.ndim != 2:
            return [post('result: is a matrix', ex, False)]
        out = [post(f'result: shape[{k}]', ex, eq(res.shape[k], sp.shape[k])) for k in (0, 1)]
        i, j = z3.Int(f'i!{uid()}'), z3.Int(f'j!{uid()}')
        ex.pc.append(And(inside(i, sp.shape[0]), inside(j, sp.shape[1])))
        a, b = ex.rd(res, (i, j)), ex.rd(sp, (i, j))
        hyps = []
        for t in (A(i), B(j)):
            s, si = SQRT(t).v, SQRT(div(1, t)).v
            hyps += [t.v > 0, s > 0, s * s == t.v, si == 1 / s]     # lemmas 'gak: positive', 'gak: square root of the inverse'
        out.append(post('result: normalised kernel of every pair', ex, same(a, b), hyps, rounds=1))
        ex.pc.pop()
        return out


contract(['P07', 'P05', 'P17'], CdistGak('_cdist_gak', False))
contract(['P07', 'P05', 'P17'], CdistGak('cdist_gak', True))
