"""helpers shared by the contracts: symbolic inputs, specification functions"""
import z3
from tsvc.terms import *
from tsvc.terms import And, Or, Not, Implies
from tsvc.fns import *
from tsvc.engine import *
from tsvc.contract import *
from tsvc import models

FIN = ('X', False, False, False)
EXT = ('X', True, False, False)      # finite or +inf


def sym_arr(ex, name, shape, tpl=FIN, dtype=None):
    F = VFn(name, [z3.IntSort()] * len(shape), tpl)
    a = ex.new_arr(shape, lambda i: F(*i), dtype or {'I': 'i', 'B': 'b', 'U': 'o'}.get(tpl if isinstance(tpl, str) else '', 'f'), name)
    a.store.sym = F
    return a


def sizes(ex, *names, lo=1):
    out = []
    for n in names:
        v = z3.Int(f'{n}!{uid()}')
        ex.pc.append(v >= lo)
        out.append(v)
    return out if len(out) > 1 else out[0]


def sqdist(ex, r1, r2, d):
    """sum_k (s1[i,k]-s2[j,k])**2 as a function of (i,j)"""
    def c(i, j):
        def body(k):
            x = sub(r1((i, k)), r2((j, k)))
            return mul(x, x)
        return ex.reduce('sum', d, body)
    return ex.tabulate(2, c)


def inside(i, n):
    return And(le(0, i), lt(i, n))


def finite_cells(ex, a):
    """every element is a finite number"""
    vs = [z3.Int(f'f{d}!{uid()}') for d in range(a.ndim)]
    e = toX(ex.rd(a, tuple(vs)))
    return Implies(And(*[inside(v, n) for v, n in zip(vs, a.shape)]), e.finite())


def finite_reader(ex, a):
    """reader of an array of finite numbers (the flags of in-range elements are false: see finite_cells)"""
    r = ex.reader(a)
    xs = [z3.Int(f'x!{uid()}') for _ in range(a.ndim)]
    npc, sav = len(ex.pc), ex.itervars
    ex.itervars = sav + xs
    ex.pc += [And(x >= 0, x < zi(n)) for x, n in zip(xs, a.shape)]
    try:
        v = toX(r(tuple(xs))).v
        v = strip_ites(ex, v, xs)
    finally:
        ex.itervars = sav
        del ex.pc[npc:]
    return lambda idx: XR(z3.substitute(v, *[(x, zi(y)) for x, y in zip(xs, idx)]))


def strip_ites(ex, v, xs):
    """resolve the conditionals over the indices that are decided inside the domain"""
    ids = {x.get_id() for x in xs}
    for _ in range(12):
        todo, seen = [v], set()
        rep = None
        while todo and rep is None:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and E_mentions(e.arg(0), ids):
                d = ex.decide(e.arg(0))
                if d is not None:
                    rep = (e, e.arg(1) if d else e.arg(2))
                    break
            todo.extend(reversed(e.children()))
        if rep is None:
            return v
        v = z3.substitute(v, rep)
    return v


def E_mentions(e, ids):
    from tsvc.engine import _mentions
    return _mentions(e, ids)


def padded(ex, name, n, d, lo=0, tail=True):
    """series of at most n rows: finite values, then trailing missing rows"""
    T = z3.Int(f'len_{name}!{uid()}')
    ex.pc.append(And(T >= lo, T <= zi(n)))
    F = VFn(name, [z3.IntSort()] * 2, FIN)
    a = ex.new_arr((n, d), lambda i: XR(F(*i).v, n=_norm_(zi(i[0]) >= T)), 'f', name)
    return a


def _norm_(f):
    f = z3.simplify(f)
    return True if z3.is_true(f) else False if z3.is_false(f) else f


def padded_ds(ex, name, n, sz, d, lo=0):
    """dataset of n padded series"""
    T = VFn(f'len_{name}', [z3.IntSort()], 'I')
    T.unfold = lambda i: [And(T(i) >= lo, T(i) <= zi(sz))]
    F = VFn(name, [z3.IntSort()] * 3, FIN)
    return ex.new_arr((n, sz, d), lambda i: XR(F(*[zi(x) for x in i]).v, n=_norm_(zi(i[1]) >= T(zi(i[0])))), 'f', name)


def generic(ex, doms, f):
    """f at formal indices inside their domains (obligations are generated for them), read by substitution"""
    from tsvc.engine import subst_any
    xs = [z3.Int(f'x!{uid()}') for _ in doms]
    npc, sav = len(ex.pc), ex.itervars
    ex.itervars = sav + xs
    ex.pc += [And(x >= 0, x < zi(n)) for x, n in zip(xs, doms)]
    ex.loopdepth += 1
    try:
        e = f(*xs)
    finally:
        ex.loopdepth -= 1
        ex.itervars = sav
        del ex.pc[npc:]
    return lambda *a: subst_any(e, [(x, zi(y)) for x, y in zip(xs, a)])


def pair_matrix(ex, n1, n2, pair, self_, diag=None):
    """matrix of pair(i,j); with self_: computed once per unordered pair, diagonal diag(i) (0 by default)"""
    P = generic(ex, (n1, n2), pair)
    if not self_:
        return ex.new_arr((n1, n2), lambda x: P(*x))

    def cell(x):
        a, b = x
        return ite(lt(a, b), P(a, b), ite(lt(b, a), P(b, a), P(a, a) if diag else XR(rv(0))))
    return ex.new_arr((n1, n1), cell)


def names_in(*es):
    """names of the defined functions occurring in the expressions"""
    out = []
    for e in es:
        collect_apps(zb(e) if isinstance(e, bool) else e, {}, out)
    return {f.name for f, _ in out}
