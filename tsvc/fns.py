"""Defined functions (recursive definitions unfolded on demand), reductions and
the unfolding prover.

Every recursive object of a proof - the final contents of an array written by a
loop nest, a prefix sum, a specification function - is an uninterpreted z3
function with a *defining equation*.  The prover instantiates defining
equations at the ground applications occurring in the query (bounded number of
rounds) and asks z3 (then cvc5) whether the negated goal is unsatisfiable.
`unsat` is a proof for all inputs; anything else is "not proved".
"""
import time
import subprocess
import tempfile
import os
import z3
from .terms import *
from . import terms as T

REG = {}        # decl name -> Fn
STATS = {'queries': 0, 'time': 0.0, 'cvc5': 0, 'z3': 0}


class Fn:
    """A z3 function symbol with unfold(args)->list of formulas"""

    def __init__(self, name, sorts, ret, unfold=None, reduce=None):
        self.name = f'{name}!{uid()}'
        self.decl = z3.Function(self.name, *sorts, ret) if sorts else None
        self.const = z3.Const(self.name, ret) if not sorts else None
        self.unfold = unfold
        self.reduce = reduce
        self.owner = self
        REG[self.name] = self

    def __call__(self, *args):
        if self.const is not None:
            return self.const
        return self.decl(*args)


def sort_of_tpl(t):
    return {'I': z3.IntSort(), 'B': z3.BoolSort(), 'U': U, 'R': z3.RealSort()}[t]


# value templates: 'I' | 'B' | 'U' | ('X',hasp,hasm,hasn) | ('T',[...])
def tpl_of(v):
    if v is BOT:
        return 'BOT'
    if isinstance(v, tuple):
        return ('T', [tpl_of(x) for x in v])
    if is_bool(v):
        return 'B'
    if is_int(v):
        return 'I'
    if is_u(v):
        return 'U'
    if is_scalar(v):
        v = toX(v)
        return ('X', v.p is not False, v.m is not False, v.n is not False)
    raise Unsupported(f'no template for {type(v).__name__}')


def tpl_join(a, b):
    if a == b or b == 'BOT':
        return a
    if a == 'BOT':
        return b
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'T' and b[0] == 'T' and len(a[1]) == len(b[1]):
        return ('T', [tpl_join(x, y) for x, y in zip(a[1], b[1])])
    num = lambda t: t in ('I', 'B') or (isinstance(t, tuple) and t[0] == 'X')
    if num(a) and num(b):
        fa = a if isinstance(a, tuple) else ('X', False, False, False)
        fb = b if isinstance(b, tuple) else ('X', False, False, False)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ('X', fa[1] or fb[1], fa[2] or fb[2], fa[3] or fb[3])
        return 'I'
    raise Unsupported(f'incompatible value kinds {a} {b}')


def cast(v, t):
    """coerce value v to template t (returns leaves-compatible value)"""
    if v is BOT:
        return build(t, iter([{'Int': z3.IntVal(0), 'Bool': z3.BoolVal(False), 'Real': z3.RealVal(0)}.get(q.name(), z3.Const('bot', q)) for q in leaf_sorts(t)]))
    if t == 'B':
        return v
    if t == 'I':
        return zi(v) if not isinstance(v, int) else v
    if t == 'U':
        return v
    if t[0] == 'X':
        return toX(v)
    return tuple(cast(x, y) for x, y in zip(v, t[1]))


def leaves(v, t):
    """list of z3 terms for value v under template t"""
    if t == 'B':
        return [zb(v)]
    if t == 'I':
        return [zi(v)]
    if t == 'U':
        return [v]
    if t[0] == 'X':
        v = toX(v)
        out = [v.v]
        for has, f in ((t[1], v.p), (t[2], v.m), (t[3], v.n)):
            if has:
                out.append(zb(f))
            elif f is not False:
                raise Unsupported('special value outside template')
        return out
    out = []
    for x, y in zip(v, t[1]):
        out += leaves(x, y)
    return out


def build(t, it):
    if t in ('B', 'I', 'U'):
        return next(it)
    if t[0] == 'X':
        v = next(it)
        fl = [next(it) if has else False for has in t[1:4]]
        return XR(v, *fl)
    return tuple(build(x, it) for x in t[1])


def leaf_sorts(t):
    if t in ('B', 'I', 'U'):
        return [sort_of_tpl(t)]
    if t[0] == 'X':
        return [z3.RealSort()] + [z3.BoolSort()] * sum(1 for h in t[1:4] if h)
    out = []
    for x in t[1]:
        out += leaf_sorts(x)
    return out


class VFn:
    """bundle of Fns returning a value of the given template"""

    def __init__(self, name, sorts, tpl, unfold=None, reduce=None):
        self.tpl = tpl
        self.unfold = unfold
        self.fns = [Fn(name, sorts, s, unfold=lambda *a: self._unf(*a), reduce=(self if reduce else None))
                    for s in leaf_sorts(tpl)]
        for f in self.fns:
            f.owner = self
        self.reduce = reduce
        self._cache = {}

    def __call__(self, *args):
        args = [zi(a) if is_int(a) or isinstance(a, bool) else a for a in args]
        return build(self.tpl, iter([f(*args) for f in self.fns]))

    def _unf(self, *args):
        if self.unfold is None:
            return []
        k = tuple(a.get_id() for a in args)
        if k not in self._cache:
            self._cache[k] = (args, self.unfold(*args))
        return self._cache[k][1]


# ---------------------------------------------------------------- prover
def collect_apps(f, seen, out):
    stack = [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                nm = d.name()
                if nm in REG:
                    out.append((REG[nm], e))
            stack.extend(e.children())
        elif z3.is_quantifier(e):
            stack.append(e.body())


_UNARY = {}


def ufun(name):
    """real-valued uninterpreted unary functions with axioms"""
    if name not in _UNARY:
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        _UNARY[name] = f

        def unf(x):
            y = f(x)
            if name == 'sqrt':
                return [z3.Implies(x >= 0, z3.And(y >= 0, y * y == x)), z3.Implies(x == 0, y == 0), z3.Implies(x > 0, y > 0)]
            if name == 'exp':
                return [y > 0, z3.Implies(x == 0, y == 1), (x <= 0) == (y <= 1), (x < 0) == (y < 1)]
            if name == 'log':
                return [z3.Implies(x == 1, y == 0), z3.Implies(x > 0, (x >= 1) == (y >= 0))]
            if name.startswith('round'):
                sc = rv(10 ** int(name[5:]))
                z = x * sc
                fl = z3.ToInt(z)
                fr = z - z3.ToReal(fl)
                up = z3.Or(fr > z3.Q(1, 2), z3.And(fr == z3.Q(1, 2), fl % 2 == 1))
                return [y == z3.If(up, z3.ToReal(fl) + 1, z3.ToReal(fl)) / sc, z3.Implies(x >= 0, y >= 0), z3.Implies(x <= 0, y <= 0)]
            if name in ('sin', 'cos'):
                return [y <= 1, y >= -1]
            return []
        fn = Fn.__new__(Fn)
        fn.name, fn.decl, fn.const, fn.unfold, fn.reduce = name, f, None, unf, None
        fn.owner = fn
        REG[name] = fn
    return _UNARY[name]


class Result:
    def __init__(self, status, model=None, reason='', dt=0.0, backend='z3', rounds=0):
        self.status, self.model, self.reason, self.dt, self.backend, self.rounds = status, model, reason, dt, backend, rounds

    def __bool__(self):
        return self.status == 'unsat'


def _cvc5(solver, timeout):
    smt = '(set-logic ALL)\n' + solver.to_smt2().replace('(set-info :status unknown)', '')
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(smt)
        p = fh.name
    try:
        r = subprocess.run(['cvc5', '--tlimit', str(int(timeout)), p], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


_NL = {}
_ABS = {}


def _nlfun(kind, sort):
    k = (kind, sort.name())
    if k not in _NL:
        _NL[k] = z3.Function(f'{kind}_{sort.name()}', sort, sort, sort)
    return _NL[k]


NLNAMES = ('mul_Real', 'mul_Int', 'div_Real')


def nl_lemmas(x):
    """sign facts of an abstracted product / quotient"""
    a, b = x.children()
    if x.decl().name().startswith('mul'):
        out = [z3.Implies(z3.Or(z3.And(a >= 0, b >= 0), z3.And(a <= 0, b <= 0)), x >= 0),
               z3.Implies(z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0)), x <= 0),
               z3.Implies(z3.And(a != 0, b != 0), x != 0)]
        if a.eq(b):
            out.append(x >= 0)
        else:
            out += [z3.Implies(b == 1, x == a), z3.Implies(a == 1, x == b)]
        return out
    return [z3.Implies(z3.Or(z3.And(a >= 0, b > 0), z3.And(a <= 0, b < 0)), x >= 0),
            z3.Implies(z3.Or(z3.And(a >= 0, b < 0), z3.And(a <= 0, b > 0)), x <= 0),
            z3.Implies(z3.And(a != 0, b != 0), x != 0), z3.Implies(b == 1, x == a)]


def abstract_nl(e):
    """replace products / quotients of two non-constant terms by uninterpreted
    (commutative, for products) function applications: a sound weakening"""
    stack = [e]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _ABS:
            stack.pop()
            continue
        ch = x.children()
        if z3.is_quantifier(x) or not ch:
            _ABS[i] = (x, x)
            stack.pop()
            continue
        todo = [c for c in ch if c.get_id() not in _ABS]
        if todo:
            stack += todo
            continue
        stack.pop()
        nc = [_ABS[c.get_id()][1] for c in ch]
        d = x.decl()
        k = d.kind()
        if k == z3.Z3_OP_MUL:
            num = [c for c in nc if z3.is_rational_value(c) or z3.is_int_value(c)]
            oth = [c for c in nc if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(oth) > 1:
                oth.sort(key=lambda c: c.get_id())
                f = _nlfun('mul', oth[0].sort())
                r = oth[0]
                for c in oth[1:]:
                    r = f(r, c)
                for c in num:
                    r = c * r
            else:
                r = d(*nc) if any(p is not q for p, q in zip(nc, ch)) else x
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV) and not (z3.is_rational_value(nc[1]) or z3.is_int_value(nc[1])):
            r = _nlfun('div', nc[0].sort())(*nc)
        elif all(p is q for p, q in zip(nc, ch)):
            r = x
        else:
            r = d(*nc)
        _ABS[i] = (x, r)
    return _ABS[e.get_id()][1]


def prove(hyps, goal, triggers=(), rounds=5, timeout=10000, use_cvc5=True, extra=(), maxapps=600, opaque=()):
    """Is  hyps => goal  valid?  Phase 1 treats nonlinear products as uninterpreted
    (fast, sufficient for structural equalities); phase 2 is exact."""
    t0 = time.time()
    # phase 0: hypotheses about loop functions / reductions the goal does not mention are left out
    ga = []
    collect_apps(zb(Not(goal)), {}, ga)
    names = {f.name for f, _ in ga}
    small = []
    for h in hyps:
        ha = []
        if z3.is_expr(h):
            collect_apps(h, {}, ha)
        if all(f.name in names for f, _ in ha):
            small.append(h)
    if len(small) < len(hyps):
        r0 = _prove(small, goal, triggers, rounds, min(timeout // 2, 1000), False, extra, maxapps, True, opaque)
        if r0.status == 'unsat':
            r0.dt = time.time() - t0
            return r0
    # integer parts of nonlinear terms: the exact phase first (z3 stalls on the abstraction)
    order = (False, True) if any(n.startswith('round') for n in names) or _has_toint(zb(goal)) else (True, False)
    for tmo in ((2000, timeout) if timeout > 4000 else (timeout,)):
        for ab in order:
            r = _prove(hyps, goal, triggers, rounds, tmo, use_cvc5 and not ab and tmo == timeout, extra, maxapps, ab, opaque)
            if r.status == 'unsat' or (r.status == 'sat' and not (ab and r.nonlinear)):
                r.dt = time.time() - t0
                return r
    r.dt = time.time() - t0
    return r


def _has_toint(f):
    seen, stack = set(), [f]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_TO_INT:
                return True
            stack.extend(e.children())
    return False


def _prove(hyps, goal, triggers, rounds, timeout, use_cvc5, extra, maxapps, absnl, opaque=()):
    """triggers: list of (VFn|Fn, callable(args)->formula) hypotheses instantiated
    at each ground application of the trigger function.
    """
    t0 = time.time()
    deadline = t0 + 2.5 * timeout / 1000
    STATS['queries'] += 1
    s = z3.Solver()
    nonlin = [False]
    nlseen = {}

    def sadd(f):
        if absnl:
            g = abstract_nl(f)
            if not g.eq(f):
                nonlin[0] = True
                stack = [g]
                while stack:
                    x = stack.pop()
                    if x.get_id() in nlseen:
                        continue
                    nlseen[x.get_id()] = x
                    if z3.is_app(x):
                        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 2 and x.decl().name() in NLNAMES:
                            for l in nl_lemmas(x):
                                s.add(l)
                        stack.extend(x.children())
            s.add(g)
        else:
            s.add(f)
    ng = Not(goal)
    base = [zb(h) for h in hyps] + [zb(ng)] + [zb(e) for e in extra]
    for b in base:
        sadd(b)
    seen = {}
    done = set()
    new = base
    trig = {}
    for fs, mk in triggers:
        for f in (fs.fns if isinstance(fs, VFn) else [fs]):
            trig.setdefault(f.name if isinstance(f, Fn) else f.name(), []).append(mk)
    tdone = set()
    redapps = []
    cands, wits = None, []
    status = 'unknown'
    napps = 0
    rnd = 0
    pending = False
    for rnd in range(rounds + 1):
        s.set('timeout', int(max(200, min(timeout, 1000 * (deadline - time.time())))))
        r = s.check()
        status = str(r)
        if status == 'unsat':
            break
        apps = []
        for f in new:
            collect_apps(f, seen, apps)
        nxt = []
        for fn, e in apps:
            if fn.name in opaque:
                continue
            args = e.children()
            key = (id(fn.owner), tuple(a.get_id() for a in args))
            if fn.unfold is not None:
                if key not in done:
                    done.add(key)
                    napps += 1
                    for g in fn.unfold(*args):
                        nxt.append(zb(g))
            for mk in trig.get(fn.name, ()):
                tk = (id(mk), key[1])
                if tk not in tdone:
                    tdone.add(tk)
                    g = mk(*args)
                    if g is not None and g is not True:
                        nxt.append(zb(g))
            if fn.reduce is not None:
                rk = ('r', key)
                if rk not in done:
                    done.add(rk)
                    if fn.reduce.kind in BOUNDED or fn.reduce.nonneg:
                        if cands is None:
                            cands = int_consts(ng)
                            if len(cands) < 8:
                                more = [c for h in base for c in int_consts(h) if not any(c.eq(x) for x in cands)]
                                cands = (cands + more)[:12] if len(cands) + len(more) <= 16 else cands
                        w = z3.Int(f'wit!{uid()}')
                        nxt += [zb(g) for g in fn.reduce.bounds(args, cands + wits, w)]
                        for o, oargs in redapps:
                            if o.kind in BOUNDED:
                                nxt += [zb(g) for g in o.bounds(oargs, [w], None)]
                        wits.append(w)
                    for (o, oargs) in redapps:
                        g = fn.reduce.ext(o, args, oargs)
                        if g is not None:
                            nxt.append(zb(g))
                    redapps.append((fn.reduce, args))
        if not nxt:
            pending = False
            break
        pending = True
        if napps > maxapps or time.time() > deadline:
            status = 'unknown'
            break
        for g in nxt:
            sadd(g)
        new = nxt
    backend = 'z3'
    model = None
    if status == 'unknown' and use_cvc5:
        r2 = _cvc5(s, timeout)
        STATS['cvc5'] += 1
        if r2 != 'unknown':
            status, backend = r2, 'cvc5'
    if status == 'sat' and backend == 'z3':
        try:
            model = s.model()
        except z3.Z3Exception:
            model = None
    dt = time.time() - t0
    STATS['time'] += dt
    res = Result(status, model, s.reason_unknown() if status == 'unknown' else '', dt, backend, rnd)
    res.nonlinear = nonlin[0]
    res.pending = pending
    return res


def int_consts(f):
    """integer constants of a formula (index variables, sizes)"""
    seen, out, stack = set(), [], [f]
    while stack:
        e = stack.pop()
        if not z3.is_expr(e) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() == z3.IntSort():
            out.append(e)
        stack.extend(e.children())
    return out


# ---------------------------------------------------------------- reductions
BOUNDED = ('max', 'min', 'or', 'and', 'argext_min', 'argext_max')


class Reduce(VFn):
    """prefix reduction  R(ctx, n) = init (op) body(lo) (op) ... (op) body(n-1)"""

    def __init__(self, kind, ctx, lo, kvar, body, guard, op, init, tpl, pc):
        self.kind, self.ctx, self.lo, self.kvar = kind, list(ctx), zi(lo), kvar
        self.bodyv, self.op, self.init, self.pcf, self.hi = body, op, init, pc, None
        super().__init__(f'red_{kind}', [c.sort() for c in ctx] + [z3.IntSort()], tpl, unfold=self._unfold, reduce=True)
        self.nonneg = False
        if kind in ('sum', 'prod', 'min', 'max') and isinstance(body, XR) and isinstance(tpl, tuple) and tpl[0] == 'X':
            self.nonneg = kind == 'sum' and T.syn_nonneg(body.v) and (init is None or T.syn_nonneg(toX(init).v))
            if self.nonneg:
                T.NONNEG.add(self.fns[0].name)

    def inst(self, v, args, k=None):
        subs = list(zip(self.ctx, args))
        if k is not None:
            subs.append((self.kvar, k))
        return subst(v, subs)

    def _unfold(self, *args):
        cargs, n = args[:-1], args[-1]
        lo = self.inst(self.lo, cargs)
        pcf = self.inst(zb(self.pcf), cargs)
        if self.hi is not None:
            pcf = And(pcf, n <= self.inst(self.hi, cargs))
        me = self(*cargs, n)
        prev = self(*cargs, z3.simplify(n - 1))
        step = self.op(prev, self.inst(self.bodyv, cargs, z3.simplify(n - 1)))
        init = self.inst(self.init, cargs) if self.init is not None else None
        out = [leaves(me, self.tpl)[0] >= 0] if self.nonneg else []
        if init is not None:
            out.append(Implies(And(self.inst(zb(self.pcf), cargs), n <= lo), eqdef(me, init, self.tpl)))
            out.append(Implies(And(pcf, n > lo), eqdef(me, step, self.tpl)))
        else:
            first = self.inst(self.bodyv, cargs, lo)
            out.append(Implies(And(pcf, n == lo + 1), eqdef(me, first, self.tpl)))
            out.append(Implies(And(pcf, n > lo + 1), eqdef(me, step, self.tpl)))
        return out

    def bounds(self, args, cands, w):
        """elements against the reduction, and a witness element (elements are those of the defining range)"""
        a, n = args[:-1], args[-1]
        me = self(*args)
        lo = self.inst(self.lo, a)
        pcf = self.inst(zb(self.pcf), a)
        if self.hi is not None:
            pcf = And(pcf, n <= self.inst(self.hi, a))
        out = []
        k = self.kind
        if k.startswith('argext'):
            # (value, index) of the first extremum of a non-empty range
            val, idx = toX(me[0]), zi(me[1])
            ne = And(pcf, n > lo)
            less = (lambda x, y: lt(x, y)) if k == 'argext_min' else (lambda x, y: lt(y, x))
            for c in cands + ([w] if w is not None else []):
                b = toX(self.inst(self.bodyv, a, c)[0])
                out.append(Implies(And(pcf, c >= lo, c < n), And(Not(less(b, val)), Implies(c < idx, less(val, b)))))
            if w is not None:
                out.append(Implies(ne, And(w == idx, idx >= lo, idx < n, same(val, toX(self.inst(self.bodyv, a, w)[0])))))
            return out
        for c in cands + ([w] if w is not None else []):
            b = self.inst(self.bodyv, a, c)
            g = And(pcf, c >= lo, c < n)
            if k == 'or':
                f = Implies(b, me)
            elif k == 'and':
                f = Implies(me, b)
            elif k == 'sum':
                f = toX(b).v <= toX(me).v
            else:
                f = le(b, me) if k == 'max' else le(me, b)
                if isinstance(me, XR):
                    f = Or(me.n, f)
            out.append(Implies(g, f))
        if w is None or k == 'sum':
            return out
        b = self.inst(self.bodyv, a, w)
        inr = And(w >= lo, w < n)
        init = self.inst(self.init, a) if self.init is not None else None
        if k == 'or':
            f = Implies(me, Or(init if init is not None else False, And(inr, b)))
        elif k == 'and':
            f = Or(me, Not(init) if init is not None else False, And(inr, Not(b)))
        else:
            f = Or(n <= lo, And(inr, same(me, b))) if init is None else Or(same(me, init), And(inr, same(me, b)))
        out.append(Implies(pcf, f))
        return out

    def ext(self, o, args, oargs):
        if o.kind != self.kind or o.tpl != self.tpl:
            return None
        a, n = args[:-1], args[-1]
        b, m = oargs[:-1], oargs[-1]
        if o is self and all(x.eq(y) for x, y in zip(args, oargs)):
            return None
        sk = z3.Int(f'sk!{uid()}')
        l1, l2 = self.inst(self.lo, a), o.inst(o.lo, b)
        b1 = self.inst(self.bodyv, a, sk)
        # aligned bodies: k-th element from each lower bound
        b2 = o.inst(o.bodyv, b, z3.simplify(sk - l1 + l2))
        i_eq = True
        if self.init is not None:
            i_eq = same(self.inst(self.init, a), o.inst(o.init, b))
        g = And(self.inst(zb(self.pcf), a), o.inst(zb(o.pcf), b))
        if self.hi is not None:
            g = And(g, n <= self.inst(self.hi, a))
        if o.hi is not None:
            g = And(g, m <= o.inst(o.hi, b))
        return Or(Not(g), zb(n - l1 != m - l2), Not(i_eq),
                  And(sk >= l1, sk < n, Not(same(b1, b2))),
                  same(self(*a, n), o(*b, m)))


def eqdef(a, b, tpl):
    la, lb = leaves(a, tpl), leaves(b, tpl)
    return And(*[x == y for x, y in zip(la, lb)])


def subst(v, subs):
    if isinstance(v, tuple):
        return tuple(subst(x, subs) for x in v)
    if isinstance(v, XR):
        return XR(z3.substitute(v.v, *subs), *[f if isinstance(f, bool) else z3.substitute(f, *subs)
                                             for f in (v.p, v.m, v.n)]) if subs else v
    if z3.is_expr(v):
        return z3.substitute(v, *subs) if subs else v
    return v
