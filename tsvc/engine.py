"""Symbolic executor: turns the *real* Python source of tslearn (parsed from
/repo on every run) into verification conditions.

Loops with symbolic bounds are replaced by *exact* summaries (no hand-written
invariant text): every carried scalar and every written array gets a defined
function of the iteration counter (write-once arrays: of the cell), whose
defining equation is the loop body itself.  See DESIGN.md for the rules.
"""
import ast
import os
import z3
from .terms import *
from . import terms as T
from .fns import *

REPO = os.environ.get('TSLEARN_REPO', '/repo')


LEAF_EXC = ('ValueError', 'TypeError', 'ImportError', 'KeyError', 'IndexError', 'RuntimeWarning', 'AttributeError', 'NotImplementedError')


class PyRaise(Exception):
    def __init__(self, name, msg=''):
        self.name, self.msg = name, msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


class Store:
    def __init__(self, name=''):
        self.name = name
        self.id = uid()

    def __repr__(self):
        return f'Store#{self.id}{self.name}'


class Cell:
    def __init__(self, name=''):
        self.name = name


class Arr:
    """view on a store"""
    __slots__ = ('shape', 'store', 'vmap', 'dtype', 'tag', 'ind')

    def __init__(self, shape, store, vmap=None, dtype='f', tag=None):
        self.shape, self.store, self.vmap, self.dtype, self.tag = tuple(shape), store, vmap, dtype, tag
        self.ind = None

    @property
    def ndim(self):
        return len(self.shape)


class Sel:
    """x[mask]: the elements val(i) of 0..n-1 where mask(i) holds, in order"""

    def __init__(self, n, mask, val):
        self.n, self.mask, self.val = n, mask, val

    def compatible(self, ex, o):
        i = z3.Int('sel#')
        a, b = zb(self.mask(i)), zb(o.mask(i))
        return a.eq(b) or prove(ex.pc, z3.Implies(z3.And(i >= 0, i < zi(self.n)), a == b), rounds=1, timeout=1000).status == 'unsat'


class SList:
    """list with symbolic length"""

    def __init__(self, store, lencell):
        self.store, self.len = store, lencell


class PList:
    """Python list of statically known length (mutable)"""

    def __init__(self, items):
        self.items = list(items)


class Obj:
    def __init__(self, cls, attrs=None, name=''):
        self.cls, self.name = cls, name
        self.attrs = dict(attrs or {})
        self.written = {}


class FuncVal:
    def __init__(self, node, closure, module, name, cls=None):
        self.node, self.closure, self.module, self.name, self.cls = node, closure, module, name, cls
        self.defaults = None
        self.selfv = None
        self.partial = ((), {})
        self.alias = None       # module-level name of a closure returned by a factory

    def qual(self):
        return self.alias or f'{self.module.name}.{self.name}'


class ClassVal:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}


class Prim:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModRef:
    def __init__(self, name):
        self.name = name


class SliceV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class TypeRef:
    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


def _has(nodes, kinds, stop_loops=False):
    for n in nodes if isinstance(nodes, list) else [nodes]:
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if stop_loops and isinstance(n, (ast.For, ast.While)):
            # break/continue inside an inner loop belong to it
            if _has(n.body + n.orelse, tuple(k for k in (kinds if isinstance(kinds, tuple) else (kinds,))
                                            if k not in (ast.Break, ast.Continue)) or (type(None),), True):
                return True
            continue
        for c in ast.iter_child_nodes(n):
            if _has(c, kinds, stop_loops):
                return True
    return False


def assigned_names(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


class Module:
    cache = {}

    def __init__(self, name, path):
        self.name, self.path = name, path
        src = open(path).read()
        self.src = src
        self.tree = ast.parse(src)
        self.vals = {}
        self.defs = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = n
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ('from', n.module, n.level, a.name)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
            elif isinstance(n, ast.If):
                # `if torch is not None` / `if HAS_TORCH`: torch is installed here
                self._scan(n.body)

    @classmethod
    def get(cls, name):
        if name not in cls.cache:
            p = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(p):
                p = os.path.join(p, '__init__.py')
            else:
                p += '.py'
            if not os.path.exists(p):
                return None
            cls.cache[name] = Module(name, p)
        return cls.cache[name]

    def find_func(self, dotted):
        """AST node of a (nested) function 'outer.inner' or 'Class.method'"""
        body = self.tree.body
        node = None
        for part in dotted.split('.'):
            node = None
            for x in _walk_defs(body):
                if x.name == part:
                    node = x
            if node is None:
                return None
            body = node.body
        return node


def _walk_defs(body):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n
        elif isinstance(n, (ast.If, ast.Try)):
            yield from _walk_defs(n.body)
            yield from _walk_defs(n.orelse)


class Frame:
    def __init__(self, vars, closure, module, func=None):
        self.vars, self.closure, self.module, self.func = vars, closure, module, func


class Obligation:
    def __init__(self, label, pc, formula, triggers=(), kind='safety', rounds=4, timeout=10000, opaque=()):
        self.opaque = frozenset(opaque)     # functions whose definition is not needed
        self.label, self.pc, self.formula, self.triggers, self.kind = label, list(pc), formula, triggers, kind
        self.rounds, self.timeout = rounds, timeout
        self.result = None


class Ex:
    MAXUNROLL = 80

    def __init__(self, contracts=None, externals=None, check_bounds=True, div0=False):
        CUR[0] = self
        self.contracts = contracts or {}
        self.externals = externals or {}
        self.check_bounds = check_bounds
        self.div0 = div0
        self.heap = {}
        self.cells = {}
        self.wr = {}
        self.idxlog = []
        self.pc = []
        self.itervars = []
        self.itersub = []
        self.script = []
        self.pos = 0
        self.obls = []
        self.inlined = {}
        self.used_contracts = {}
        self.loopdepth = 0
        self.frames = []
        self.facts = []
        self.active = None
        self.calldepth = 0
        self.trust = set()
        self._dsolver = None
        self.whiles = []
        from . import models
        self.models = models
        self.nd = 0
        self.warned = []

    # ------------------------------------------------------------ solver helpers
    def decide(self, c, timeout=400):
        c = T._norm(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.nd += 1
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in self.pc + self.facts:
            s.add(zb(f))
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            return True
        s.pop()
        s.add(c)
        if s.check() == z3.unsat:
            return False
        return None

    def must(self, c):
        return self.decide(c) is True

    def oblige(self, label, f, kind='safety'):
        f = T._norm(f)
        if f is True:
            return
        if self.decide(f) is True:
            o = Obligation(label, self.pc + self.facts, f, kind=kind)
            o.result = Result('unsat')
            self.obls.append(o)
            return
        self.obls.append(Obligation(label, self.pc + self.facts, f, kind=kind))

    def mk(self, name, sort):
        """fresh symbol, a function of the enclosing iteration variables"""
        if not self.itervars:
            return z3.Const(f'{name}!{uid()}', sort)
        return z3.Function(f'{name}!{uid()}', *[v.sort() for v in self.itervars], sort)(*self.itervars)

    def mkval(self, name, tpl):
        srt = leaf_sorts(tpl)
        return build(tpl, iter([self.mk(name, s) for s in srt]))

    def ctx_pc(self):
        ids = {v.get_id() for v in self.itervars}
        if not ids:
            return True
        return And(*[p for p in self.pc if not isinstance(p, bool) and _mentions(p, ids)])

    # ------------------------------------------------------------ arrays
    def new_arr(self, shape, f, dtype='f', name='', tag=None):
        st = Store(name)
        self.heap[st] = memo(f)
        return Arr(shape, st, None, dtype, tag)

    def rd(self, a, idx):
        """raw element read (no bounds check)"""
        b = a.vmap(tuple(idx)) if a.vmap else tuple(idx)
        return self.heap[a.store](b)

    def reader(self, a):
        """element reader frozen at the current state"""
        f = self.heap[a.store]
        vm = a.vmap
        return (lambda idx: f(vm(tuple(idx)))) if vm else (lambda idx: f(tuple(idx)))

    def wrt(self, a, idx, val):
        b = a.vmap(tuple(idx)) if a.vmap else tuple(idx)
        self.store_write(a.store, lambda x: And(*[eq(p, q) for p, q in zip(x, b)]), lambda x: val, b)

    def store_write(self, st, match, valf, idxexpr):
        if getattr(st, 'frozen', None):
            self.oblige(f'frame: writes to {st.frozen}', False, kind='frame')
        old = self.heap[st]
        self.heap[st] = memo(lambda x: ite(match(x), valf(x), old(x)))
        ow = self.wr.get(st)
        self.wr[st] = memo((lambda x: Or(ow(x), match(x))) if ow else match)
        self.idxlog.append((st, idxexpr))

    def norm_idx(self, i, n, what='index'):
        if isinstance(i, XR):
            raise Unsupported('float index')
        if is_bool(i):
            raise Unsupported('bool index')
        if isinstance(i, int):
            if i >= 0:
                r = i
            else:
                r = i_add(n, i)
        else:
            d = self.decide(i >= 0)
            if d is True:
                r = i
            elif d is False:
                r = i_add(i, n)
            else:
                r = z3.If(i >= 0, i, i + zi(n))
        if self.check_bounds:
            self.oblige(f'{what} in bounds', And(le(0, r), lt(r, n)), kind='bounds')
        return r

    def index(self, a, key):
        """numpy basic indexing -> ('scalar', idx) or Arr view; advanced indexing -> Arr copy"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            nreal = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:p] + (SliceV(None, None, None),) * (a.ndim - nreal) + key[p + 1:]
        if any(isinstance(k, (Arr, PList)) for k in key):
            return ('adv', key)
        nreal = sum(1 for k in key if k is not None)
        if nreal > a.ndim:
            raise Unsupported('too many indices')
        key = key + (SliceV(None, None, None),) * (a.ndim - nreal)
        shape = []
        parts = []   # per base dim: function of out idx list
        d = 0
        o = 0
        for k in key:
            if k is None:
                shape.append(1)
                o += 1
                continue
            n = a.shape[d]
            if isinstance(k, SliceV):
                lo, ln, st = self.slice_bounds(k, n)
                shape.append(ln)
                parts.append((lambda oi, lo=lo, st=st, o=o: i_add(lo, i_mul(oi[o], st)) if st != 1 else i_add(oi[o], lo)))
                o += 1
            else:
                i = self.norm_idx(k, n)
                parts.append(lambda oi, i=i: i)
            d += 1
        pm = a.vmap

        def vmap(oi):
            b = tuple(p(oi) for p in parts)
            return pm(b) if pm else b
        if not shape:
            b = tuple(p(()) for p in parts)
            return ('scalar', pm(b) if pm else b)
        return Arr(shape, a.store, vmap, a.dtype)

    def slice_bounds(self, k, n):
        st = 1 if k.st is None else k.st
        if not isinstance(st, int):
            raise Unsupported('symbolic slice step')
        if st == -1 and k.lo is None and k.hi is None:
            return i_sub(n, 1), n, -1
        if st <= 0:
            raise Unsupported('negative slice step')

        def clip(v):
            if isinstance(v, XR):
                raise Unsupported('float slice bound')
            if isinstance(v, int) and v < 0:
                v = i_add(n, v)
                if isinstance(v, int):
                    return max(v, 0)
                d = self.decide(v >= 0)
                return v if d is True else z3.If(v >= 0, v, z3.IntVal(0))
            if isinstance(v, int) and isinstance(n, int):
                return min(v, n)
            if not isinstance(v, int) and self.decide(v >= 0) is not True:
                v = z3.If(v >= 0, v, z3.If(v + zi(n) >= 0, v + zi(n), z3.IntVal(0)))
            if self.decide(le(v, n)) is True:
                return v
            return simp_int(z3.If(zi(v) <= zi(n), zi(v), zi(n)))
        lo = 0 if k.lo is None else clip(k.lo)
        hi = n if k.hi is None else clip(k.hi)
        ln = i_sub(hi, lo)
        if isinstance(ln, int):
            ln = max(ln, 0)
        elif self.decide(ln >= 0) is not True:
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        if st != 1:
            ln = floordiv(i_add(ln, st - 1), st)
        return lo, ln, st

    def dim_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.decide(eq(a, b)) is True

    def bshape(self, shapes):
        nd = max(len(s) for s in shapes)
        out = []
        for d in range(nd):
            cur = 1
            for s in shapes:
                k = d - (nd - len(s))
                if k < 0:
                    continue
                x = s[k]
                if isinstance(x, int) and x == 1:
                    continue
                if isinstance(cur, int) and cur == 1:
                    cur = x
                elif not self.dim_eq(cur, x):
                    self.oblige('broadcast dimensions agree', eq(cur, x), kind='bounds')
            out.append(cur)
        return tuple(out)

    def breader(self, a, shape):
        """broadcast reader"""
        if not isinstance(a, Arr):
            return lambda idx: a
        r = self.reader(a)
        off = len(shape) - a.ndim
        ones = [isinstance(s, int) and s == 1 and not (isinstance(shape[off + d], int) and shape[off + d] == 1)
                for d, s in enumerate(a.shape)]
        return lambda idx: r(tuple(0 if ones[d] else idx[off + d] for d in range(a.ndim)))

    def emap(self, f, *args, dtype='f'):
        """elementwise"""
        arrs = [a for a in args if isinstance(a, Arr)]
        sels = [a for a in args if isinstance(a, Sel)]
        if sels:
            if arrs or any(not sels[0].compatible(self, x) for x in sels[1:]):
                raise Unsupported('operation on differently masked selections')
            return Sel(sels[0].n, sels[0].mask, lambda i: f(*[a.val(i) if isinstance(a, Sel) else a for a in args]))
        if not arrs:
            return f(*args)
        shape = self.bshape([a.shape for a in arrs])
        rs = [self.breader(a, shape) for a in args]
        return self.new_arr(shape, lambda idx: f(*[r(idx) for r in rs]), dtype)

    def tabulate(self, arity, f):
        """evaluate f once at formal indices; the result is read by substitution (total: no domain guard)"""
        xs = [z3.Int(f'x!{uid()}') for _ in range(arity)]
        sav, pc = self.itervars, self.pc
        self.itervars, self.pc = list(sav) + xs, []
        try:
            v = f(*xs)
        finally:
            self.itervars, self.pc = sav, pc
        return lambda *i: subst_any(v, [(x, zi(y)) for x, y in zip(xs, i)])

    def reduce(self, kind, n, body, lo=0, init=UNDEF, op=None):
        OPS = {'sum': (add, 0), 'prod': (mul, 1), 'min': (minimum, None), 'max': (maximum, None),
               'or': (lambda a, b: Or(a, b), False), 'and': (lambda a, b: And(a, b), True)}
        if op is None:
            op, i0 = OPS[kind]
            if init is UNDEF:
                init = i0
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 32:
            if n <= lo and init is None:
                raise Unsupported('empty reduction')
            acc = init
            for k in range(lo, n):
                e = body(k)
                acc = e if acc is None else op(acc, e)
            return acc
        k = z3.Int(f'k!{uid()}')
        self.itervars.append(k)
        npc = len(self.pc)
        self.pc += [k >= zi(lo), k < zi(n)]
        try:
            e = body(k)
        finally:
            del self.pc[npc:]
            self.itervars.pop()
        tpl = tpl_of(e)
        if kind in ('sum', 'prod', 'min', 'max') and tpl == 'B':
            e = zi(e)
            tpl = 'I'
        if init is not None:
            tpl = tpl_join(tpl, tpl_of(init))
            init = cast(init, tpl)
        if isinstance(tpl, tuple) and tpl[0] == 'X' and kind == 'sum' and tpl[1] and tpl[2]:
            tpl = ('X', True, True, True)
        e = cast(e, tpl)
        if tpl == 'I':
            e = zi(e)
            init = zi(init) if init is not None else None
        if tpl == 'B':
            e = zb(e)
        return self.canon_reduce(kind, k, e, lo, init, tpl, op)(zi(n))

    def canon_reduce(self, kind, k, e, lo, init, tpl, op):
        """hash-consed prefix reduction of e over k; its parameters are the maximal index terms that depend on
        iteration variables but not on k (the definition is total, so equal bodies give the same function)"""
        lv = leaves(e, tpl) + [zi(lo)] + (leaves(init, tpl) if init is not None else [])
        ids = {v.get_id() for v in self.itervars} - {k.get_id()}
        kid = {k.get_id()}
        params = []
        if any(_mentions(x, ids) for x in lv):
            seen = set()

            def walk(x):
                if x.get_id() in seen:
                    return
                seen.add(x.get_id())
                if not _mentions(x, ids):
                    return
                if x.sort() == z3.IntSort() and not _mentions(x, kid):
                    params.append(x)
                    return
                for c in x.children():
                    walk(c)
            for x in lv:
                walk(x)
        fresh = [z3.Int(f'p!{uid()}') for _ in params]
        sub_ = list(zip(params, fresh))
        lv2 = [z3.substitute(x, *sub_) for x in lv] if sub_ else lv
        ctx, args = fresh, params
        if any(_mentions(x, ids) for x in lv2):           # not closed by index terms: iteration variables themselves
            ctx = args = [v for v in self.itervars if v.get_id() != k.get_id() and any(_mentions(x, {v.get_id()}) for x in lv)]
            lv2, sub_ = lv, []
        can = [(v, z3.Const(f'c#{i}', v.sort())) for i, v in enumerate(ctx)] + [(k, z3.Int('k#'))]
        key = (kind, str(tpl), tuple(z3.simplify(z3.substitute(x, *can)).sexpr() for x in lv2))
        R = HASHCONS.get(key)
        if R is None:
            if sub_:
                e, lo = subst_any(e, sub_), z3.substitute(zi(lo), *sub_)
                init = subst_any(init, sub_) if init is not None else None
            R = HASHCONS[key] = Reduce(kind, ctx, lo, k, e, None, op, init, tpl, True)
        return lambda n: R(*args, n)

    def define(self, name, arity, tpl, body, sorts=None):
        """recursive specification function  F(x1..xn) = body(self, x1..xn)  (hash-consed)"""
        sorts = sorts or [z3.IntSort()] * arity
        xs = [z3.Const(f'x{i}!{uid()}', so) for i, so in enumerate(sorts)]
        npc = len(self.pc)
        sav = self.itervars
        self.itervars = sav + xs
        try:
            ph = VFn('self#', sorts, tpl)
            ph.fns = [Fn('self#', sorts, so) for so in leaf_sorts(tpl)]
            e = leaves(cast(body(ph, *xs), tpl), tpl)
            ctx = [v for v in sav if any(_mentions(x, {v.get_id()}) for x in e)]
            can = [(v, z3.Const(f'c#{i}', v.sort())) for i, v in enumerate(ctx)] + [(x, z3.Const(f'a#{i}', x.sort())) for i, x in enumerate(xs)]
            names = {f.name: f'self#{i}' for i, f in enumerate(ph.fns)}
            k = tuple(z3.substitute(x, *can).sexpr() for x in e)
            for a, b in names.items():
                k = tuple(q.replace(a, b) for q in k)
            key = ('define', name, str(tpl), k)
            F = HASHCONS.get(key)
            if F is None:
                F = VFn(name, [v.sort() for v in ctx] + sorts, tpl)
                HASHCONS[key] = F
                me = (lambda *a: F(*ctx, *a))
                e2 = leaves(cast(body(me, *xs), tpl), tpl)
                formals = ctx + xs

                def unf(*a):
                    subs = list(zip(formals, a))
                    return [And(*[p == z3.substitute(q, *subs) for p, q in zip(leaves(F(*a), tpl), e2)])]
                F.unfold = unf
                F.arity_ctx = len(ctx)
        finally:
            self.itervars = sav
            del self.pc[npc:]
        r = (lambda *a: F(*ctx, *[zi(q) if intlike(q) else q for q in a]))
        r_ = SpecFn(F, ctx, r)
        return r_

    # ------------------------------------------------------------ state snapshot / merge
    def snap(self):
        fr = self.frames[-1]
        return (dict(fr.vars), dict(self.heap), dict(self.cells), dict(self.wr), len(self.pc))

    def restore(self, s):
        fr = self.frames[-1]
        fr.vars = dict(s[0])
        self.heap, self.cells, self.wr = dict(s[1]), dict(s[2]), dict(s[3])
        del self.pc[s[4]:]

    def merge(self, c, s1, s2, base):
        """state := ite(c, s1, s2)"""
        self.restore(base)
        fr = self.frames[-1]
        out = {}
        for k in set(s1[0]) | set(s2[0]):
            a, b = s1[0].get(k, UNDEF), s2[0].get(k, UNDEF)
            out[k] = self.merge_val(c, a, b, k)
        fr.vars = out
        for st in set(s1[1]) | set(s2[1]):
            f1, f2 = s1[1].get(st), s2[1].get(st)
            if f1 is f2 or f2 is None:
                self.heap[st] = f1
            elif f1 is None:
                self.heap[st] = f2
            else:
                self.heap[st] = memo(lambda x, f1=f1, f2=f2: ite(c, f1(x), f2(x)))
            w1, w2 = s1[3].get(st), s2[3].get(st)
            if w1 is w2:
                if w1 is not None:
                    self.wr[st] = w1
            elif w1 is None or w2 is None:
                self.wr[st] = w1 or w2
            else:
                self.wr[st] = memo(lambda x, w1=w1, w2=w2: Or(w1(x), w2(x)))
        for ce in set(s1[2]) | set(s2[2]):
            a, b = s1[2].get(ce, UNDEF), s2[2].get(ce, UNDEF)
            self.cells[ce] = self.merge_val(c, a, b, getattr(ce, 'name', 'cell'))

    def merge_val(self, c, a, b, name=''):
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            return Poison(f'{name} defined on one branch only')
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if is_scalar(a) and is_scalar(b):
            return ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, name) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
            if a.store is b.store and a.vmap is b.vmap:
                return a
            if all(self.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
                ra, rb = self.reader(a), self.reader(b)
                return self.new_arr(a.shape, lambda x: ite(c, ra(x), rb(x)), a.dtype)
        if isinstance(a, PList) and isinstance(b, PList) and len(a.items) == len(b.items):
            return PList([self.merge_val(c, x, y, name) for x, y in zip(a.items, b.items)])
        if a is None and b is None:
            return None
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, FuncVal) and isinstance(b, FuncVal) and a.node is b.node:
            return a
        return Poison(f'{name}: values of different kinds on the two branches')

    # ------------------------------------------------------------ forking
    def choose(self, c):
        """fork on condition c (top level only)"""
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
            self.script.append(v)
        self.pos += 1
        self.pc.append(c if v else Not(c))
        # infeasible path?
        s = z3.Solver()
        s.set('timeout', 1000)
        for f in self.pc + self.facts:
            s.add(zb(f))
        if s.check() == z3.unsat:
            raise Infeasible()
        return v

    def paths(self, run):
        """run() executed for each feasible path"""
        self.script = []
        out = []
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported('too many paths')
            self.pos = 0
            self.pc = []
            self.facts = []
            self.heap, self.cells, self.wr, self.idxlog = {}, {}, {}, []
            self.itervars = []
            self.frames = []
            self.loopdepth = 0
            self.calldepth = 0
            try:
                out.append(run())
            except Infeasible:
                pass
            self.script = self.script[:self.pos]
            while self.script and self.script[-1] is False:
                self.script.pop()
            if not self.script:
                break
            self.script[-1] = False
        return out

    # ------------------------------------------------------------ names
    def lookup(self, name, fr=None):
        fr = fr or self.frames[-1]
        if name in fr.vars:
            v = fr.vars[name]
            if isinstance(v, Poison):
                raise Unsupported(f'use of {name}: {v.why}')
            return v
        cl = fr.closure
        while cl is not None:
            if name in cl.vars:
                v = cl.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'use of {name}: {v.why}')
                return v
            cl = cl.closure
        return self.module_get(fr.module, name)

    def module_get(self, mod, name):
        q = f'{mod.name}.{name}'
        if q in self.externals:
            v = self.externals[q]
            return v if not callable(v) or isinstance(v, (Prim, FuncVal)) else Prim(q, v)
        if name in mod.vals:
            return mod.vals[name]
        if name in mod.defs:
            d = mod.defs[name]
            if isinstance(d, ast.FunctionDef):
                v = self.make_func(d, None, mod)
            elif isinstance(d, ast.ClassDef):
                v = ClassVal(d, mod)
            elif isinstance(d, tuple):
                v = self.resolve_import(mod, d, name)
            else:
                fr = Frame({}, None, mod)
                self.frames.append(fr)
                try:
                    val = self.ev(d.value)
                finally:
                    self.frames.pop()
                for t in d.targets:
                    if isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if e.id == name:
                                val = val[i]
                v = val
                if isinstance(v, FuncVal) and v.alias is None:
                    v.alias = q
            if isinstance(v, (FuncVal, ClassVal, ModRef, Prim, str, int, float, dict, TypeRef)):
                mod.vals[name] = v
            return v
        m = self.models.builtin(self, name)
        if m is not None:
            return m
        raise Unsupported(f'unknown name {mod.name}.{name}')

    def resolve_import(self, mod, d, name):
        if d[0] == 'mod':
            if d[1].startswith('tslearn'):
                return Module.get(d[1]) or ModRef(d[1])
            return ModRef({'np': 'numpy'}.get(d[1], d[1]))
        _, m, level, attr = d
        if level:
            base = mod.name.split('.')
            ispkg = mod.path.endswith('__init__.py')
            base = base[:len(base) - level + (1 if ispkg else 0)]
            m = '.'.join(base + ([m] if m else []))
        if m and m.startswith('tslearn'):
            q = f'{m}.{attr}'
            if q in self.externals:
                v = self.externals[q]
                return v if isinstance(v, (Prim, FuncVal)) or not callable(v) else Prim(q, v)
            sub = Module.get(m)
            if sub is None:
                raise Unsupported(f'module {m} missing')
            if attr in sub.defs or f'{sub.name}.{attr}' in self.externals:
                return self.module_get(sub, attr)
            s2 = Module.get(q)
            if s2 is not None:
                return s2
            raise Unsupported(f'cannot import {attr} from {m}')
        return self.models.mod_attr(self, m, attr)

    def make_func(self, node, closure, mod, cls=None):
        f = FuncVal(node, closure, mod, node.name if cls is None else f'{cls.name}.{node.name}', cls)
        if self.frames:
            fr = self.frames[-1]
        else:
            fr = Frame({}, None, mod)
        # defaults evaluated in the defining scope
        self.frames.append(Frame(fr.vars if closure is not None else {}, closure.closure if closure is not None and False else (closure if closure is not None else None), mod))
        try:
            a = node.args
            f.defaults = [self.ev(x) for x in a.defaults]
            f.kwdefaults = {k.arg: (self.ev(x) if x is not None else UNDEF) for k, x in zip(a.kwonlyargs, a.kw_defaults)}
        finally:
            self.frames.pop()
        return f

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Prim):
            return f.fn(self, *args, **kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, TypeRef):
            return self.models.call_type(self, f, args, kw)
        if isinstance(f, ClassVal):
            return self.models.instantiate(self, f, args, kw)
        if isinstance(f, Obj) and '__call__' in f.attrs:
            return self.call(f.attrs['__call__'], args, kw)
        raise Unsupported(f'call of {type(f).__name__}')

    def bind(self, f, args, kw):
        a = f.node.args
        pargs, pkw = f.partial
        args = tuple(pargs) + tuple(args)
        kw = {**pkw, **kw}
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.selfv is not None:
            args = (f.selfv,) + args
        vars = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', 'too many positional arguments')
            vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars[n] = v
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vars:
                    raise PyRaise('TypeError', f'multiple values for {k}')
                vars[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise PyRaise('TypeError', f'unexpected keyword {sorted(rest)} in {f.name}')
        if a.kwarg is not None:
            vars[a.kwarg.arg] = rest
        dn = names[len(names) - len(f.defaults):]
        for n, v in zip(dn, f.defaults):
            if n not in vars:
                vars[n] = v
        for k in kwonly:
            if k not in vars:
                vars[k] = f.kwdefaults[k]
        for n in names:
            if n not in vars:
                raise PyRaise('TypeError', f'missing argument {n} of {f.name}')
        return vars

    def call_func(self, f, args, kw, force_inline=False):
        q = f.qual()
        if not force_inline:
            h = self.externals.get(q)
            if h is not None:
                return h(self, *((f.selfv,) if f.selfv is not None else ()), *f.partial[0], *args, **{**f.partial[1], **kw})
            c = self.contracts.get(q)
            if c is not None and q != self.active:
                vars = self.bind(f, args, kw)
                self.used_contracts[q] = self.used_contracts.get(q, 0) + 1
                return c.apply(self, vars)
        vars = self.bind(f, args, kw)
        self.calldepth += 1
        if self.calldepth > 40:
            raise Unsupported('call depth')
        self.inlined[q] = self.inlined.get(q, 0) + 1
        for d in f.node.decorator_list:
            nm = ast.unparse(d)
            if not (nm.startswith('njit') or nm.startswith('jit') or nm in ('staticmethod', 'property', 'classmethod')
                    or nm.startswith('numba')):
                raise Unsupported(f'decorator {nm}')
        fr = Frame(vars, f.closure, f.module, f)
        self.frames.append(fr)
        try:
            if self.loopdepth == 0:
                try:
                    self.block(f.node.body)
                    return None
                except Ret as r:
                    return r.v
            return self.run_merged(f.node.body)
        finally:
            self.frames.pop()
            self.calldepth -= 1

    def run_merged(self, stmts):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Return):
                return self.ev(s.value) if s.value is not None else None
            if isinstance(s, ast.If) and _has([s], (ast.Return,)):
                c = truth(self.ev(s.test))
                d = self.decide(c)
                rest = stmts[i + 1:]
                if d is not None:
                    return self.run_merged((s.body if d else s.orelse) + rest)
                base = self.snap()
                self.pc.append(c)
                v1 = self.run_merged(s.body + rest)
                s1 = self.snap()
                self.restore(base)
                self.pc.append(Not(c))
                v2 = self.run_merged(s.orelse + rest)
                s2 = self.snap()
                self.merge(c, s1, s2, base)
                r = self.merge_val(c, v1, v2, 'return value')
                if isinstance(r, Poison):
                    raise Unsupported(r.why)
                return r
            if isinstance(s, (ast.For, ast.While)) and _has([s], (ast.Return,)):
                raise Unsupported('return inside a loop')
            self.stmt(s)
        return None

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name.split('.')[0]] = ModRef(a.name)

    def s_ImportFrom(self, s):
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name] = self.resolve_import(
                self.frames[-1].module, ('from', s.module, s.level, a.name), a.name)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else None)

    def s_Assert(self, s):
        c = truth(self.ev(s.test))
        d = self.decide(c)
        if d is True:
            return
        if self.loopdepth:
            self.oblige(f'assert line {s.lineno}', c, kind='assert')
            self.pc.append(c)
            return
        if d is False:
            raise PyRaise('AssertionError')
        if not self.choose(c):
            raise PyRaise('AssertionError')

    def s_Raise(self, s):
        e = s.exc
        nm = 'Exception'
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        if self.loopdepth:
            self.oblige(f'raise {nm} unreachable inside loop', False, kind='safety')
            raise Unsupported('raise inside symbolic loop')
        raise PyRaise(nm)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        fr.vars[s.name] = self.make_func(s, fr, fr.module)
        if fr.func is not None:
            fr.vars[s.name].name = f'{fr.func.name}.{s.name}'

    def s_With(self, s):
        for it in s.items:
            if it.optional_vars is not None:
                raise Unsupported('with ... as')
        self.block(s.body)

    def s_Try(self, s):
        if s.finalbody:
            raise Unsupported('try-finally')
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                names = [] if h.type is None else [ast.unparse(t) for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is not None and not any(n in (e.name, 'Exception', 'BaseException') for n in names):
                    if any(n not in LEAF_EXC for n in names):
                        raise Unsupported('exception hierarchy')
                    continue
                if h.name:
                    self.frames[-1].vars[h.name] = '<exception>'
                self.block(h.body)
                return
            raise
        self.block(s.orelse)

    def s_Delete(self, s):
        pass

    def s_Global(self, s):
        raise Unsupported('global')

    def s_Nonlocal(self, s):
        raise Unsupported('nonlocal')

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            v = self.ev(s.value)
            if isinstance(cur, Arr):
                self.assign_arr(cur, self.binop(s.op, cur, v))
                return
            if isinstance(cur, PList) and isinstance(v, PList):
                cur.items.extend(v.items)
                return
            self.frames[-1].vars[s.target.id] = self.binop(s.op, cur, v)
            return
        if isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            k = self.ev_key(s.target.slice)
            cur = self.getitem(o, k)
            v = self.binop(s.op, cur, self.ev(s.value))
            self.setitem(o, k, v)
            return
        if isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(s.op, cur, self.ev(s.value)))
            return
        raise Unsupported('augmented assignment')

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vs):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_key(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported(f'assign to {type(t).__name__}')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vs = v
        elif isinstance(v, PList):
            vs = v.items
        elif isinstance(v, Arr) and isinstance(v.shape[0], int):
            vs = [self.getitem(v, i) for i in range(v.shape[0])]
        else:
            raise Unsupported(f'unpack {type(v).__name__}')
        if len(vs) != n:
            raise PyRaise('ValueError', 'unpack')
        return vs

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if getattr(o, 'frozen', None):
                self.oblige(f'frame: writes attribute {name} of {o.frozen}', False, kind='frame')
            c = o.attrs.get(name)
            ce = o.written.get(name)
            if ce is None:
                ce = o.written[name] = Cell(name)
                if name in o.attrs:
                    self.cells[ce] = o.attrs[name]
            self.cells[ce] = v
            return
        raise Unsupported(f'set attribute of {type(o).__name__}')

    def getattr(self, o, name):
        if isinstance(o, Obj):
            ce = o.written.get(name)
            if ce is not None and ce in self.cells:
                v = self.cells[ce]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassVal):
                m = self.find_method(o.cls, name)
                if m is not None:
                    return self.bind_method(o, m)
            raise PyRaise('AttributeError', name)
        return self.models.attr(self, o, name)

    def find_method(self, cls, name, seen=()):
        if name in cls.methods:
            return (cls, cls.methods[name])
        for b in cls.node.bases:
            try:
                self.frames.append(Frame({}, None, cls.module))
                try:
                    bv = self.ev(b)
                finally:
                    self.frames.pop()
            except Unsupported:
                continue
            if isinstance(bv, ClassVal):
                r = self.find_method(bv, name)
                if r is not None:
                    return r
        return None

    def bind_method(self, o, m):
        cls, node = m
        f = self.make_func(node, None, cls.module, cls)
        decs = [ast.unparse(d) for d in node.decorator_list]
        if 'staticmethod' in decs:
            return f
        f.selfv = o
        if 'property' in decs:
            return self.call_func(f, (), {})
        return f

    def s_If(self, s):
        c = truth(self.ev(s.test))
        d = self.decide(c)
        if d is not None:
            self.block(s.body if d else s.orelse)
            return
        esc = _has(s.body + s.orelse, (ast.Return, ast.Raise, ast.Break, ast.Continue), True)
        if esc or self.mutates_struct(s):
            if self.loopdepth:
                raise Unsupported(f'escape under symbolic condition in loop (line {s.lineno})')
            self.block(s.body if self.choose(c) else s.orelse)
            return
        base = self.snap()
        pos0, script0 = self.pos, list(self.script)
        nob = len(self.obls)
        try:
            self.pc.append(c)
            self.block(s.body)
            s1 = self.snap()
            self.restore(base)
            self.pc.append(Not(c))
            self.block(s.orelse)
            s2 = self.snap()
            if self.pos != pos0:
                raise Unsupported('fork inside merged branch')
            for k in s1[0]:
                a, b = s1[0][k], s2[0].get(k, UNDEF)
                if k in base[0] and isinstance(self.merge_val(c, a, b, k), Poison) and not isinstance(base[0][k], Poison):
                    raise Unsupported(f'merge of {k}')
            self.merge(c, s1, s2, base)
        except (Unsupported, PyRaise):
            if self.loopdepth:
                raise
            self.restore(base)
            self.pos = pos0
            self.script = self.script[:max(pos0, len(script0))]
            del self.obls[nob:]
            self.block(s.body if self.choose(c) else s.orelse)

    def mutates_struct(self, s):
        return False

    # ------------------------------------------------------------ loops
    def iter_desc(self, it):
        """(lo, hi, elem(t)) or a python list of values"""
        if isinstance(it, range):
            return ('list', list(it))
        if isinstance(it, RangeV):
            lo, hi, st = it.lo, it.hi, it.st
            if isinstance(lo, int) and isinstance(hi, int):
                return ('list', list(range(lo, hi, st)))
            if st == 1:
                return ('sym', lo, hi, lambda t: t)
            if st == -1:
                # t counts from 0: value lo - t
                return ('sym', 0, i_sub(lo, hi), lambda t: i_sub(lo, t))
            if isinstance(st, int) and st > 1:
                n = floordiv(i_add(i_sub(hi, lo), st - 1), st)
                return ('sym', 0, n, lambda t: i_add(lo, i_mul(t, st)))
            raise Unsupported('range step')
        if isinstance(it, (tuple,)):
            return ('list', list(it))
        if isinstance(it, PList):
            return ('list', list(it.items))
        if isinstance(it, dict):
            return ('list', list(it))
        if isinstance(it, Arr):
            n = it.shape[0]
            if isinstance(n, int):
                return ('list', [self.getitem(it, i) for i in range(n)])
            return ('sym', 0, n, lambda t: self.getitem(it, t))
        if isinstance(it, SList):
            n = self.cells[it.len]
            f = self.heap[it.store]
            return ('sym', 0, n, lambda t: f((t,)))
        if isinstance(it, EnumV):
            d = self.iter_desc(it.it)
            if d[0] == 'list':
                return ('list', [(i + it.start, x) for i, x in enumerate(d[1])])
            lo = d[1]
            return ('sym', d[1], d[2], lambda t: (i_add(i_sub(t, lo), it.start), d[3](t)))
        if isinstance(it, ZipV):
            ds = [self.iter_desc(x) for x in it.its]
            if all(d[0] == 'list' for d in ds):
                return ('list', list(zip(*[d[1] for d in ds])))
            ds2 = []
            for d in ds:
                if d[0] == 'list':
                    raise Unsupported('zip of list and symbolic')
                ds2.append(d)
            n = i_sub(ds2[0][2], ds2[0][1])
            for d in ds2[1:]:
                m = i_sub(d[2], d[1])
                if not self.dim_eq(n, m):
                    n = ite(lt(n, m), n, m)
            return ('sym', 0, n, lambda t: tuple(d[3](i_add(t, d[1])) for d in ds2))
        if isinstance(it, Obj) and '__iter__' in it.attrs:
            return it.attrs['__iter__'](self)
        raise Unsupported(f'iterate over {type(it).__name__}')

    def s_For(self, s):
        if s.orelse:
            raise Unsupported('for-else')
        d = self.iter_desc(self.ev(s.iter))
        if d[0] == 'list':
            if len(d[1]) > self.MAXUNROLL:
                if all(isinstance(x, int) for x in d[1]):
                    pass
                raise Unsupported('loop too long to unroll')
            for x in d[1]:
                self.assign(s.target, x)
                try:
                    self.block(self.desugar_continue(s.body))
                except Brk:
                    break
                except Cont:
                    continue
            return
        _, lo, hi, elem = d
        self.sym_loop(lo, hi, elem, s.target, s.body, s)

    def s_While(self, s):
        if s.orelse:
            raise Unsupported('while-else')
        # concrete unrolling as long as the condition is decided
        n = 0
        while True:
            c = truth(self.ev(s.test))
            d = self.decide(c)
            if d is False:
                return
            if d is None:
                break
            if d is True and (not isinstance(T._norm(c), bool)) and n == 0 and not getattr(self, 'concrete', False):
                break
            n += 1
            if n > self.MAXUNROLL:
                raise Unsupported('while unrolling bound')
            try:
                self.block(self.desugar_continue(s.body))
            except Brk:
                return
            except Cont:
                continue
        if getattr(self, 'concrete', False):
            # bounded mode: fork on the condition
            while True:
                n += 1
                if n > self.MAXUNROLL:
                    raise Unsupported('while unrolling bound')
                c = truth(self.ev(s.test))
                d = self.decide(c)
                if d is False or (d is None and not self.choose(c)):
                    return
                try:
                    self.block(self.desugar_continue(s.body))
                except Brk:
                    return
        if n > 0:
            raise Unsupported('while condition decided for some iterations only')
        N = self.mk('N', z3.IntSort())
        self.facts.append(N >= 0)
        self.sym_loop(0, N, None, None, s.body, s, cond=s.test)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def desugar_continue(self, body):
        """if c: ...; continue  ; rest   ==>   if c: ... else: rest"""
        out = []
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and _has([st], (ast.Continue,), True):
                rest = list(body[i + 1:])

                def strip(b):
                    if b and isinstance(b[-1], ast.Continue):
                        return list(b[:-1]) or [ast.Pass(lineno=st.lineno, col_offset=0)], True
                    return list(b), False
                b, cb = strip(st.body)
                e, ce = strip(st.orelse)
                nb = b if cb else self.desugar_continue(b + rest)
                ne = e if ce else self.desugar_continue(e + rest)
                n = ast.copy_location(ast.If(test=st.test, body=nb or [ast.Pass(lineno=st.lineno, col_offset=0)], orelse=ne), st)
                ast.fix_missing_locations(n)
                out.append(n)
                return out
            out.append(st)
        return out

    def sym_loop(self, lo, hi, elem, target, body, node, cond=None):
        if _has(body, (ast.Return,)):
            raise Unsupported(f'return inside symbolic loop (line {node.lineno})')
        body = self.desugar_continue(body)
        brk = None
        if _has(body, (ast.Break,), True):
            body, brk = self.split_break(body)
        LoopSummary(self, lo, hi, elem, target, body, node, cond, brk).run()

    def split_break(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and _has([st], (ast.Break,), True):
                if st.body and isinstance(st.body[-1], ast.Break) and not _has(st.body[:-1] + st.orelse, (ast.Break,), True):
                    if _has(body[i + 1:], (ast.Break,), True):
                        raise Unsupported('two breaks')
                    return None, (body[:i], st.test, st.body[:-1], st.orelse + body[i + 1:])
        raise Unsupported('break pattern')

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is Ellipsis or v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            return toX(v)
        raise Unsupported('constant')

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.seq(e.elts))

    def e_List(self, e):
        return PList(self.seq(e.elts))

    def seq(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                out += list(v.items if isinstance(v, PList) else v)
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v))
            else:
                kk = self.ev(k)
                if isinstance(kk, (XR,)) or z3.is_expr(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v)
        return d

    def e_Set(self, e):
        return PList(self.seq(e.elts))

    def e_JoinedStr(self, e):
        return '<fstring>'

    def e_Lambda(self, e):
        fr = self.frames[-1]
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno, col_offset=0)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        return self.make_func(node, fr, fr.module)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return Not(truth(v))
        if isinstance(e.op, ast.USub):
            return self.emap(neg, v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.emap(lambda x: Not(x) if is_bool(x) else i_sub(-1, x), v, dtype='b')
        raise Unsupported('unary')

    def binop(self, op, a, b):
        t = type(op).__name__
        if isinstance(a, str) or isinstance(b, str):
            return '<str>'
        if isinstance(a, PList) and isinstance(b, PList) and t == 'Add':
            return PList(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple) and t == 'Add':
            return a + b
        if isinstance(a, (PList, tuple)) and t == 'Mult' and isinstance(b, int):
            return PList(a.items * b) if isinstance(a, PList) else a * b
        if isinstance(a, PList):
            a = self.models.to_array(self, a)
        if isinstance(b, PList):
            b = self.models.to_array(self, b)
        def ik(x):
            return x.dtype == 'i' if isinstance(x, Arr) else (intlike(x))
        dt = 'i' if ik(a) and ik(b) else 'f'
        if t == 'Add':
            return self.emap(add, a, b, dtype=dt)
        if t == 'Sub':
            return self.emap(sub, a, b, dtype=dt)
        if t == 'Mult':
            return self.emap(mul, a, b, dtype=dt)
        if t == 'Div':
            return self.emap(lambda x, y: div(x, y, self.onzero if self.div0 else None), a, b)
        if t == 'FloorDiv':
            return self.emap(floordiv, a, b, dtype=dt)
        if t == 'Mod':
            return self.emap(mod, a, b, dtype=dt)
        if t == 'Pow':
            return self.emap(self.models.power, a, b)
        if t == 'BitAnd':
            return self.emap(And, a, b, dtype='b')
        if t == 'BitOr':
            return self.emap(Or, a, b, dtype='b')
        if t == 'MatMult':
            return self.models.matmul(self, a, b)
        raise Unsupported(f'operator {t}')

    def onzero(self, c):
        self.oblige('divisor is not zero', Not(c), kind='div0')

    def e_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def e_BoolOp(self, e):
        vals = []
        isand = isinstance(e.op, ast.And)
        npc = len(self.pc)
        try:
            acc = None
            for i, x in enumerate(e.values):
                v = self.ev(x)
                if not (is_bool(v)):
                    # python and/or on general values: only decided truth is supported
                    t = self.decide(truth(v))
                    last = i == len(e.values) - 1
                    if t is None:
                        v = truth(v)
                    elif last:
                        if acc is None:
                            return v
                        v = t
                    elif t == (not isand):
                        if acc is None:
                            return v
                        v = t
                    else:
                        continue
                if v is (not isand):
                    vals.append(v)
                    acc = v
                    break
                acc = v if acc is None else (And(acc, v) if isand else Or(acc, v))
                self.pc.append(v if isand else Not(v))
            return acc if acc is not None else isand
        finally:
            del self.pc[npc:]

    def e_IfExp(self, e):
        c = truth(self.ev(e.test))
        d = self.decide(c)
        if d is not None:
            return self.ev(e.body if d else e.orelse)
        n = len(self.pc)
        self.pc.append(c)
        a = self.ev(e.body)
        del self.pc[n:]
        self.pc.append(Not(c))
        b = self.ev(e.orelse)
        del self.pc[n:]
        r = self.merge_val(c, a, b, 'conditional expression')
        if isinstance(r, Poison):
            if self.loopdepth == 0:
                return a if self.choose(c) else b
            raise Unsupported(r.why)
        return r

    def e_Compare(self, e):
        l = self.ev(e.left)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            rv_ = self.ev(r)
            c = self.cmp(op, l, rv_)
            if isinstance(c, Arr):
                if len(e.ops) > 1:
                    raise Unsupported('chained array comparison')
                return c
            acc = And(acc, c)
            l = rv_
        return acc

    def cmp(self, op, a, b):
        t = type(op).__name__
        if t in ('Is', 'IsNot'):
            if isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None or isinstance(a, (ModRef, TypeRef, bool)) or isinstance(b, (ModRef, TypeRef, bool)):
                if isinstance(a, ModRef) and isinstance(b, ModRef):
                    r = a.name == b.name
                elif isinstance(a, TypeRef) and isinstance(b, TypeRef):
                    r = a.name == b.name
                elif is_bool(a) and is_bool(b):
                    r = eq(a, b)
                else:
                    r = a is b
            elif isinstance(a, Arr) and isinstance(b, Arr):
                r = a is b
            else:
                r = a is b
            return r if t == 'Is' else Not(r)
        if t in ('In', 'NotIn'):
            items = b.items if isinstance(b, PList) else (list(b) if isinstance(b, (tuple, dict)) else None)
            if items is None:
                raise Unsupported('in')
            r = Or(*[self.pyeq(a, x) for x in items])
            return r if t == 'In' else Not(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            f = {'Eq': eq, 'NotEq': lambda x, y: Not(eq(x, y)), 'Lt': lt, 'LtE': le,
                 'Gt': lambda x, y: lt(y, x), 'GtE': lambda x, y: le(y, x)}[t]
            if isinstance(a, PList):
                a = self.models.to_array(self, a)
            if isinstance(b, PList):
                b = self.models.to_array(self, b)
            return self.emap(f, a, b, dtype='b')
        if t == 'Eq':
            return self.pyeq(a, b)
        if t == 'NotEq':
            return Not(self.pyeq(a, b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise('TypeError', 'comparison with None')
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported('tuple ordering')
        if t == 'Lt':
            return lt(a, b)
        if t == 'LtE':
            return le(a, b)
        if t == 'Gt':
            return lt(b, a)
        if t == 'GtE':
            return le(b, a)
        raise Unsupported(t)

    def pyeq(self, a, b):
        if is_scalar(a) and is_scalar(b):
            if is_u(a) != is_u(b):
                return False
            return eq(a, b)
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)):
            x = a.items if isinstance(a, PList) else a
            y = b.items if isinstance(b, PList) else b
            if type(a) != type(b) or len(x) != len(y):
                return False
            return And(*[self.pyeq(p, q) for p, q in zip(x, y)])
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            return False
        if isinstance(a, (ModRef, TypeRef)) and isinstance(b, (ModRef, TypeRef)):
            return a.name == b.name
        if isinstance(a, (tuple, PList)) or isinstance(b, (tuple, PList)):
            return False
        if a is b:
            return True
        raise Unsupported(f'== on {type(a).__name__} and {type(b).__name__}')

    def ev_key(self, e):
        if isinstance(e, ast.Tuple):
            return tuple(self.ev_key(x) for x in e.elts)
        if isinstance(e, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (e.lower, e.upper, e.step)])
        return self.ev(e)

    def e_Slice(self, e):
        return self.ev_key(e)

    def e_Subscript(self, e):
        return self.getitem(self.ev(e.value), self.ev_key(e.slice))

    def getitem(self, o, k):
        if isinstance(o, Arr):
            r = self.index(o, k)
            if isinstance(r, Arr):
                if o.tag is not None and isinstance(k, int) or (o.tag is not None and z3.is_expr(k)):
                    r.tag = o.tag(self, k) if callable(o.tag) else None
                return r
            if r[0] == 'scalar':
                return self.heap[o.store](r[1])
            return self.models.adv_get(self, o, r[1])
        if isinstance(o, SList):
            n = self.cells[o.len]
            if isinstance(k, SliceV):
                lo, ln, st = self.slice_bounds(k, n)
                f = self.heap[o.store]
                ns = Store('slice')
                self.heap[ns] = memo(lambda x: f((i_add(lo, i_mul(x[0], st)),)))
                c = Cell('len')
                self.cells[c] = ln
                return SList(ns, c)
            i = self.norm_idx(k, n, 'list index')
            return self.heap[o.store]((i,))
        if isinstance(o, (tuple, PList)):
            it = o.items if isinstance(o, PList) else o
            if isinstance(k, SliceV):
                if any(x is not None and not isinstance(x, int) for x in (k.lo, k.hi, k.st)):
                    raise Unsupported('symbolic slice of a list')
                r = it[slice(k.lo, k.hi, k.st)]
                return PList(r) if isinstance(o, PList) else r
            if isinstance(k, int):
                try:
                    return it[k]
                except IndexError:
                    raise PyRaise('IndexError')
            if z3.is_expr(k) and all(is_scalar(x) or isinstance(x, tuple) for x in it):
                if self.check_bounds:
                    self.oblige('list index in bounds', And(k >= 0, k < len(it)), kind='bounds')
                r = it[-1]
                for j in range(len(it) - 2, -1, -1):
                    r = ite(eq(k, j), it[j], r)
                return r
            raise Unsupported('symbolic list index')
        if isinstance(o, dict):
            if isinstance(k, (XR,)) or z3.is_expr(k):
                raise Unsupported('symbolic dict key')
            if k not in o:
                raise PyRaise('KeyError', str(k))
            return o[k]
        if isinstance(o, Obj) and '__getitem__' in o.attrs:
            return o.attrs['__getitem__'](self, k)
        raise Unsupported(f'subscript of {type(o).__name__}')

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            r = self.index(o, k)
            if isinstance(r, Arr):
                self.assign_arr(r, v)
            elif r[0] == 'scalar':
                b = r[1]
                if isinstance(v, Arr):
                    raise Unsupported('array into scalar cell')
                if o.dtype == 'b':
                    v = truth(v)
                elif o.dtype == 'f':
                    v = toX(v)
                elif o.dtype == 'i' and isinstance(v, XR):
                    raise Unsupported('float stored into an int array')
                self.store_write(o.store, lambda x: And(*[eq(p, q) for p, q in zip(x, b)]), lambda x: v, b)
            else:
                self.models.adv_set(self, o, r[1], v)
            return
        if isinstance(o, PList):
            if self.loopdepth:
                raise Unsupported('list item assignment in symbolic loop')
            if isinstance(k, int):
                o.items[k] = v
                return
            raise Unsupported('symbolic list assignment')
        if isinstance(o, dict):
            if isinstance(k, XR) or z3.is_expr(k) or self.loopdepth:
                raise Unsupported('dict assignment')
            o[k] = v
            return
        if isinstance(o, Obj) and '__setitem__' in o.attrs:
            return o.attrs['__setitem__'](self, k, v)
        raise Unsupported(f'item assignment on {type(o).__name__}')

    def assign_arr(self, view, v):
        """view[...] = v"""
        if isinstance(v, PList):
            v = self.models.to_array(self, v)
        rd = self.breader(v, view.shape) if isinstance(v, Arr) else (lambda idx: v)
        if isinstance(v, Arr):
            if v.ndim > view.ndim:
                raise Unsupported('assignment rank')
            off = view.ndim - v.ndim
            for d in range(v.ndim):
                if isinstance(v.shape[d], int) and v.shape[d] == 1:
                    continue
                if not self.dim_eq(v.shape[d], view.shape[off + d]):
                    self.oblige('assignment shapes agree', eq(v.shape[d], view.shape[off + d]), kind='bounds')
        # invert the view map: view idx variables -> base idx (affine with unit coefficients)
        vs = [z3.Int(f'v!{uid()}') for _ in view.shape]
        base = view.vmap(tuple(vs)) if view.vmap else tuple(vs)
        inv = []
        for q, vv in enumerate(vs):
            sol = None
            if isinstance(view.shape[q], int) and view.shape[q] == 1:
                inv.append(('one', None, None))
                continue
            for c, b in enumerate(base):
                if isinstance(b, int):
                    continue
                for sgn in (1, -1):
                    rest = z3.simplify(zi(b) - sgn * vv)
                    if not any(_mentions(rest, {w.get_id()}) for w in vs):
                        sol = (c, sgn, rest)
                        break
                if sol:
                    break
            if sol is None:
                raise Unsupported('view is not invertible')
            inv.append(sol)

        def back(x):
            out = []
            for s_ in inv:
                if s_[0] == 'one':
                    out.append(0)
                else:
                    c, sgn, rest = s_
                    out.append(i_mul(sgn, i_sub(x[c], simp_int(rest))) if sgn != 1 else i_sub(x[c], simp_int(rest)))
            return tuple(out)

        def match(x):
            w = back(x)
            conds = [And(le(0, wi), lt(wi, n)) for wi, n in zip(w, view.shape)]
            bb = view.vmap(w) if view.vmap else w
            conds += [eq(p, q) for p, q in zip(bb, x)]
            return And(*conds)
        dt = view.dtype

        def valf(x):
            r = rd(back(x))
            return toX(r) if dt == 'f' else (truth(r) if dt == 'b' else r)
        self.store_write(view.store, match, valf, base)

    def e_Call(self, e):
        f = self.ev(e.func)
        args, kw = [], {}
        if isinstance(f, Prim) and getattr(f.fn, 'lazy', False):
            return f.fn(self, e)
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                if isinstance(v, PList):
                    v = v.items
                if isinstance(v, Arr) and isinstance(v.shape[0], int):
                    v = [self.getitem(v, i) for i in range(v.shape[0])]
                if not isinstance(v, (list, tuple)):
                    raise Unsupported('star argument')
                args += list(v)
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def e_ListComp(self, e):
        return self.comp(e)

    def e_GeneratorExp(self, e):
        return self.comp(e)

    def e_DictComp(self, e):
        raise Unsupported('dict comprehension')

    def comp(self, e):
        """comprehension: statically known iterables expand; one symbolic generator gives a SeqV"""
        fr = self.frames[-1]
        saved = dict(fr.vars)
        try:
            r = self.comp_rec(e.elt, e.generators)
        finally:
            fr.vars = saved
        return r

    def comp_rec(self, elt, gens):
        g = gens[0]
        d = self.iter_desc(self.ev(g.iter))
        if d[0] == 'list':
            out = []
            for x in d[1]:
                self.assign(g.target, x)
                ok = True
                for c in g.ifs:
                    t = self.decide(truth(self.ev(c)))
                    if t is None:
                        raise Unsupported('symbolic comprehension filter')
                    ok = ok and t
                if not ok:
                    continue
                if len(gens) > 1:
                    r = self.comp_rec(elt, gens[1:])
                    if not isinstance(r, PList):
                        raise Unsupported('nested symbolic comprehension')
                    out += r.items
                else:
                    out.append(self.ev(elt))
            return PList(out)
        if g.ifs:
            raise Unsupported('symbolic comprehension filter')
        _, lo, hi, elem = d
        if len(gens) == 1:
            return self.seq_of(lo, hi, elem, g.target, elt)
        # nested: flattened sequence of blocks
        fr = self.frames[-1]
        closure_vars = dict(fr.vars)

        def block(t):
            fr2 = self.frames[-1]
            sv = dict(fr2.vars)
            fr2.vars = {**closure_vars}
            self.loopdepth += 1
            try:
                self.assign(g.target, elem(t))
                return self.comp_rec(elt, gens[1:])
            finally:
                self.loopdepth -= 1
                fr2.vars = sv
        return NestedSeq(i_sub(hi, lo), lambda t: block(i_add(t, lo)))

    def seq_of(self, lo, hi, elem, target, elt):
        """evaluate elt at a symbolic position -> SList"""
        t = z3.Int(f't!{uid()}')
        fr = self.frames[-1]
        self.itervars.append(t)
        npc = len(self.pc)
        self.pc += [t >= zi(lo), t < zi(hi)]
        self.loopdepth += 1
        base = dict(self.heap)
        try:
            self.assign(target, elem(t))
            v = self.ev(elt)
        finally:
            self.loopdepth -= 1
            del self.pc[npc:]
            self.itervars.pop()
        n = i_sub(hi, lo)
        if isinstance(v, Arr):
            rdv = self.reader(v)
            sh = v.shape
            if any(z3.is_expr(x) and _mentions(x, {t.get_id()}) for x in sh):
                raise Unsupported('ragged comprehension')
            xs = [z3.Int(f'x!{uid()}') for _ in sh]
            self.itervars.append(t)
            self.pc += [t >= zi(lo), t < zi(hi)] + [And(x >= 0, x < zi(s)) for x, s in zip(xs, sh)]
            try:
                term = rdv(tuple(xs))
            finally:
                del self.pc[npc:]
                self.itervars.pop()
            return self.new_arr((n,) + tuple(sh), lambda idx: subst_any(term, [(t, zi(i_add(idx[0], lo)))] + [(x, zi(i)) for x, i in zip(xs, idx[1:])]), v.dtype)
        if not (is_scalar(v) or isinstance(v, tuple)):
            raise Unsupported('comprehension element')
        st = Store('comp')
        if isinstance(v, tuple):
            v = tuple(x for x in v)
        self.heap[st] = memo(lambda x: subst_any(v, [(t, zi(i_add(x[0], lo)))]))
        c = Cell('len')
        self.cells[c] = n
        return SList(st, c)


HASHCONS = {}


class SpecFn:
    def __init__(self, F, ctx, call):
        self.F, self.ctx, self.call = F, ctx, call

    def __call__(self, *a):
        return self.call(*a)


class NestedSeq:
    def __init__(self, n, block):
        self.n, self.block = n, block


class RangeV:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class EnumV:
    def __init__(self, it, start=0):
        self.it, self.start = it, start


class ZipV:
    def __init__(self, its):
        self.its = its


def subst_any(v, subs):
    if isinstance(v, tuple):
        return tuple(subst_any(x, subs) for x in v)
    if isinstance(v, (bool, int, float, str)) or v is None:
        return v
    return subst(v, subs)


def _mentions(e, ids):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(x.children())
    return False


CUR = [None]


def memo(f):
    """cache of an array-content function; the key contains the current path
    condition because contents may be simplified under it"""
    cache = {}

    def g(x):
        ex = CUR[0]
        pc = tuple(p if isinstance(p, bool) else p.get_id() for p in ex.pc) if ex is not None else ()
        k = (pc,) + tuple((i if isinstance(i, int) else ('z', i.get_id())) for i in x)
        r = cache.get(k)
        if r is None:
            r = cache[k] = (x, list(ex.pc) if ex is not None else None, f(x))
        return r[2]
    return g


from .loops import LoopSummary  # noqa: E402
