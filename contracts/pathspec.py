"""Alignment paths: validity, optimal-predecessor property, attained cost."""
from .common import *
from .dpspec import *


def post(label, ex, f, hyps=(), **kw):
    return Obligation(label, ex.pc + ex.facts + [zb(h) for h in hyps], f, kind='post', **kw)


def lst(ex, res):
    """(length, element reader) of a path value"""
    if isinstance(res, SList):
        return ex.cells[res.len], (lambda x, f=ex.heap[res.store]: f((x,)))
    if isinstance(res, Arr) and res.ndim == 2:
        r = ex.reader(res)
        return res.shape[0], lambda x: (r((x, 0)), r((x, 1)))
    return None


def step_ok(p, q):
    """q follows p by one monotone unit step"""
    di, dj = sub(q[0], p[0]), sub(q[1], p[1])
    return And(le(0, di), le(di, 1), le(0, dj), le(dj, 1), lt(0, add(di, dj)))


def best_pred(acc, p, q):
    """p has the smallest accumulated value among the predecessors of q"""
    out = []
    for a, b in ((1, 0), (0, 1), (1, 1)):
        r = (i_sub(q[0], a), i_sub(q[1], b))
        out.append(Implies(And(le(0, r[0]), le(0, r[1])), le(acc(p), acc(r))))
    return And(*out)


def valid_path_obls(ex, res, l1, l2, acc, label='path'):
    t = lst(ex, res)
    if t is None:
        return [post(f'{label}: is a list of index pairs', ex, False)]
    n, f = t
    out = [post(f'{label}: not empty', ex, le(1, n)),
           post(f'{label}: starts at the first pair', ex, eq(f(0), (0, 0))),
           post(f'{label}: ends at the last pair', ex, eq(f(i_sub(n, 1)), (i_sub(l1, 1), i_sub(l2, 1))))]
    x = z3.Int(f'x!{uid()}')
    dom = And(x >= 0, x + 1 < zi(n))
    ex.pc.append(dom)
    p, q = f(x), f(x + 1)
    out += [post(f'{label}: indices in range', ex, And(le(0, p[0]), lt(p[0], l1), le(0, p[1]), lt(p[1], l2))),
            post(f'{label}: unit monotone steps', ex, step_ok(p, q)),
            post(f'{label}: every step comes from a best predecessor', ex, best_pred(acc, p, q), rounds=6)]
    ex.pc.pop()
    return out


def path_value(ex, l1, l2, acc):
    """abstract value of a callee's path: only its contract is known"""
    P = VFn('path', [z3.IntSort()], ('T', ['I', 'I']))
    n = z3.Int(f'npath!{uid()}')
    ex.facts.append(n >= 1)

    def unf(x):
        q, p = P(x), P(z3.simplify(x - 1))
        inr = lambda c: And(le(0, c[0]), lt(c[0], l1), le(0, c[1]), lt(c[1], l2))
        return [Implies(And(x >= 0, x < n), inr(q)), Implies(x == 0, eq(q, (0, 0))),
                Implies(x == n - 1, eq(q, (i_sub(l1, 1), i_sub(l2, 1)))),
                Implies(And(x >= 1, x < n), And(inr(p), step_ok(p, q), best_pred(acc, p, q)))]
    P.unfold = unf
    st, c = Store('path'), Cell('npath')
    ex.heap[st] = lambda i: P(zi(i[0]))
    ex.cells[c] = n
    return SList(st, c)


def attained_obls(ex, res, S, cost, mask, combine, neutral, label='path'):
    """combining the costs along the path gives the accumulated value at every prefix (induction), hence the
    reported score; all pairs are inside the mask"""
    t = lst(ex, res)
    if t is None:
        return [post(f'{label}: is a list of index pairs', ex, False)]
    n, f = t
    C = VFn('pathcost', [z3.IntSort()], EXT)

    def unf(x):
        p = f(x)
        v = combine(cost(*p), ite(x <= 0, neutral, C(z3.simplify(x - 1))))
        return [eqv(C(x), v)]

    def eqv(a, b):
        return same(a, b)
    C.unfold = unf
    acc = lambda p: S(i_add(p[0], 1), i_add(p[1], 1))
    out = []
    n0 = len(ex.pc)
    fin = Not(acc(f(i_sub(n, 1))).p)
    x = z3.Int(f'x!{uid()}')
    # prefix x: if the accumulated value is finite it equals the cost of the prefix, and the pair is admissible
    P = lambda y: Implies(Not(acc(f(y)).p), And(same(acc(f(y)), C(y)), truth(mask(f(y)))))
    out.append(post(f'{label}: cost of the first prefix', ex, P(z3.IntVal(0)), rounds=4))
    out.append(post(f'{label}: cost of every prefix', ex, P(x + 1), [x >= 0, x + 1 < zi(n), P(x)], rounds=4))
    # finite score: every prefix is finite
    Q = lambda y: Implies(Not(acc(f(y + 1)).p), Not(acc(f(y)).p))
    out.append(post(f'{label}: prefixes of a finite path are finite', ex, Q(x), [x >= 0, x + 1 < zi(n)], rounds=4))
    del ex.pc[n0:]
    return out
