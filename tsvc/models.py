"""Models of the library operations the verified functions use (trusted base:
numpy / torch-as-used / Python builtins).  Listed in every evidence file."""
import ast
from fractions import Fraction
import z3
from .terms import *
from . import terms as T
from .fns import *
from . import engine as E
from .engine import (Arr, Sel, SList, PList, Obj, FuncVal, ClassVal, Prim, ModRef, SliceV, TypeRef, Store, Cell, RangeV,
                     EnumV, ZipV, NestedSeq, PyRaise, Poison, UNDEF, _mentions, subst_any, memo)

USED = set()


def P(name):
    def deco(f):
        NP[name] = f
        return f
    return deco


NP = {}


# ------------------------------------------------------------------ scalar functions
def unary(fname):
    def f(x):
        x = toX(x)
        c = _c(x.v)
        if c is not None and x.p is False and x.m is False and x.n is False:
            if fname == 'sqrt' and c >= 0:
                import math
                from fractions import Fraction
                a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if a * a == c.numerator and b * b == c.denominator:
                    return XR(rv(Fraction(a, b)))
            if fname == 'exp' and c == 0:
                return XR(rv(1))
            if fname == 'log' and c == 1:
                return XR(rv(0))
        fn = ufun(fname)
        if fname == 'sqrt':
            return XR(fn(x.v), p=x.p, n=Or(x.n, x.m) if (x.n is not False or x.m is not False) else False)
        if fname == 'exp':
            v = fn(x.v)
            if x.m is not False:
                v = z3.If(zb(x.m), rv(0), v)
            return XR(v, p=x.p, n=x.n)
        if fname == 'log':
            return XR(fn(x.v), p=x.p, n=x.n)
        return XR(fn(x.v), n=x.n)
    f.__name__ = fname
    return f


def _c(v):
    return T._rc(z3.simplify(v))


def xabs(x):
    if intlike(x):
        return ite(lt(x, 0), neg(x), x)
    x = toX(x)
    c = T._rc(x.v)
    v = rv(abs(c)) if c is not None else z3.If(x.v < 0, -x.v, x.v)
    return XR(v, p=Or(x.p, x.m), n=x.n)


def power(a, b):
    if isinstance(b, XR):
        c = _c(b.v)
        if c is not None and c.denominator == 1 and b.finite() is True:
            b = int(c)
        elif c is not None and c == c.__class__(1, 2):
            return unary('sqrt')(a)
    if isinstance(b, int):
        if b == 0:
            return 1 if intlike(a) else XR(rv(1))
        if 0 < b <= 4:
            r = a
            for _ in range(b - 1):
                r = mul(r, a)
            return r
        if b == -1:
            return div(1, a)
    f = REG.get('pow')
    raise Unsupported('general power')


def xfloor(x):
    x = toX(x)
    return XR(z3.ToReal(z3.ToInt(x.v)), x.p, x.m, x.n)


def xceil(x):
    x = toX(x)
    return XR(-z3.ToReal(z3.ToInt(-x.v)), x.p, x.m, x.n)


def xround(x, decimals=0):
    """round half to even on exact reals"""
    x = toX(x)
    c = _c(x.v)
    if c is not None:
        return XR(rv(Fraction(round(c * 10 ** decimals), 10 ** decimals)), x.p, x.m, x.n)
    return XR(ufun(f'round{decimals}')(x.v), x.p, x.m, x.n)


def toint(ex, x):
    if intlike(x):
        return zi(x) if z3.is_expr(x) and z3.is_bool(x) else (int(x) if isinstance(x, (int, bool)) else x)
    if isinstance(x, str):
        raise Unsupported('int of str')
    x = toX(x)
    ex.oblige('int() of a finite number', x.finite(), kind='safety')
    c = _c(x.v)
    if c is not None:
        return int(c)
    v = x.v
    # truncation toward zero
    return simp_int(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


# ------------------------------------------------------------------ helpers
def to_array(ex, v, dtype=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PList, tuple)):
        items = v.items if isinstance(v, PList) else list(v)
        if not items:
            return ex.new_arr((0,), lambda i: XR(rv(0)), 'f')
        if all(is_scalar(x) for x in items):
            dt = 'b' if all(is_bool(x) for x in items) else ('i' if all(intlike(x) for x in items) else 'f')
            its = [toX(x) for x in items] if dt == 'f' else list(items)
            return ex.new_arr((len(its),), lambda i: pick(its, i[0]), dt)
        arrs = [to_array(ex, x) for x in items]
        sh = arrs[0].shape
        if any(a.ndim != len(sh) for a in arrs):
            raise Unsupported('ragged array')
        for a in arrs[1:]:
            for x, y in zip(a.shape, sh):
                if not ex.dim_eq(x, y):
                    raise Unsupported('ragged array')
        rs = [ex.reader(a) for a in arrs]
        dt = 'f' if any(a.dtype == 'f' for a in arrs) else arrs[0].dtype
        return ex.new_arr((len(arrs),) + tuple(sh),
                          lambda i: pick([toX(r(i[1:])) if dt == 'f' else r(i[1:]) for r in rs], i[0]), dt)
    if isinstance(v, SList):
        f = ex.heap[v.store]
        n = ex.cells[v.len]
        k = z3.Int(f'v!{uid()}')
        e = f((k,))
        if isinstance(e, tuple):
            return ex.new_arr((n, len(e)), lambda i: pick(list(f((i[0],))), i[1]), 'i' if all(intlike(x) for x in e) else 'f')
        return ex.new_arr((n,), lambda i: f((i[0],)), 'i' if intlike(e) else ('b' if is_bool(e) else 'f'))
    if isinstance(v, NestedSeq):
        raise Unsupported('array of nested sequence')
    if is_scalar(v):
        return v
    raise Unsupported(f'array of {type(v).__name__}')


def pick(items, i):
    if isinstance(i, int):
        return items[i]
    r = items[-1]
    for j in range(len(items) - 2, -1, -1):
        r = ite(eq(i, j), items[j], r)
    return r


def shape_arg(ex, s):
    if isinstance(s, PList):
        return tuple(s.items)
    if isinstance(s, tuple):
        return s
    if isinstance(s, Arr):
        if isinstance(s.shape[0], int):
            return tuple(ex.getitem(s, i) for i in range(s.shape[0]))
        raise Unsupported('shape')
    return (s,)


def dt_of(d, default='f'):
    if d is None:
        return default
    if isinstance(d, TypeRef):
        n = d.name
    elif isinstance(d, ModRef):
        n = d.name.split('.')[-1]
    elif isinstance(d, str):
        n = d
    elif isinstance(d, DType):
        return d.k
    else:
        raise Unsupported('dtype')
    if n.startswith('float') or n in ('double',):
        return 'f'
    if n.startswith('int') or n in ('long',):
        return 'i'
    if n.startswith('bool'):
        return 'b'
    if n == 'object':
        return 'o'
    raise Unsupported(f'dtype {n}')


class DType:
    def __init__(self, k):
        self.k = k


def coerce(x, dt):
    if dt == 'f':
        return toX(x)
    if dt == 'b':
        return truth(x)
    if dt == 'i' and isinstance(x, XR):
        c = _c(x.v)
        if c is not None and c.denominator == 1 and x.finite() is True:
            return int(c)
        raise Unsupported('float in int array')
    return x


def axis_norm(a, nd):
    if isinstance(a, int):
        return a % nd
    raise Unsupported('axis')


def reduce_arr(ex, kind, a, axis=None, keepdims=False, pre=None):
    if isinstance(a, Sel):
        if axis is not None or keepdims or kind not in ('sum', 'or', 'and'):
            raise Unsupported(f'{kind} of a selection')
        g = pre or (lambda v: v)
        neutral = {'sum': XR(rv(0)), 'or': False, 'and': True}[kind]
        return ex.reduce(kind, a.n, lambda k: ite(a.mask(k), g(a.val(k)), neutral))
    a = to_array(ex, a)
    if not isinstance(a, Arr):
        return pre(a) if pre else a
    r = ex.reader(a)
    g = (lambda idx: pre(r(idx))) if pre else r
    if axis is None:
        axes = list(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = [axis_norm(x, a.ndim) for x in axis]
    else:
        axes = [axis_norm(axis, a.ndim)]
    keep = [d for d in range(a.ndim) if d not in axes]

    def red(fixed, left):
        if not left:
            return g(tuple(fixed[d] for d in range(a.ndim)))
        d = left[0]

        def body(k):
            return red({**fixed, d: k}, left[1:])
        return ex.reduce(kind, a.shape[d], body)
    if not keep:
        if keepdims:
            v = red({}, axes)
            return ex.new_arr((1,) * a.ndim, lambda i: v, 'f')
        return red({}, axes)
    osh = tuple(1 if d in axes else a.shape[d] for d in range(a.ndim)) if keepdims else tuple(a.shape[d] for d in keep)
    # evaluate once at formal indices, then substitute
    xs = [z3.Int(f'x!{uid()}') for _ in keep]
    conc = all(isinstance(a.shape[d], int) for d in range(a.ndim))
    if conc:
        return ex.new_arr(osh, lambda i: red(dict(zip(keep, [i[d] for d in keep] if keepdims else i)), axes),
                          'b' if kind in ('or', 'and') else a.dtype)
    npc = len(ex.pc)
    ex.itervars += xs
    ex.pc += [And(x >= 0, x < zi(a.shape[d])) for x, d in zip(xs, keep)]
    try:
        v = red(dict(zip(keep, xs)), axes)
    finally:
        del ex.pc[npc:]
        del ex.itervars[len(ex.itervars) - len(xs):]
    return ex.new_arr(osh, lambda i: subst_any(v, [(x, zi(y)) for x, y in zip(xs, [i[d] for d in keep] if keepdims else i)]),
                      'b' if kind in ('or', 'and') else a.dtype)


# ------------------------------------------------------------------ numpy-like namespace
def _mk(name):
    f = unary(name)
    return lambda ex, x, **kw: ex.emap(f, to_array(ex, x))


for _n in ('sqrt', 'exp', 'log', 'sin', 'cos'):
    NP[_n] = _mk(_n)


@P('abs')
def np_abs(ex, x):
    return ex.emap(xabs, to_array(ex, x))


NP['absolute'] = NP['fabs'] = np_abs


@P('square')
def np_square(ex, x):
    return ex.emap(lambda v: mul(v, v), to_array(ex, x))


@P('cdist')
def torch_cdist(ex, a, b, metric='euclidean', p=2.0, **kw):
    """torch.cdist / scipy cdist: (squared) euclidean distances of the rows (assumed exact)"""
    if not isinstance(metric, str):
        p, metric = metric, 'euclidean'
    if p not in (2, 2.0, None) or a.ndim != 2 or b.ndim != 2 or metric not in ('euclidean', 'sqeuclidean'):
        raise Unsupported('torch.cdist')
    if not ex.dim_eq(a.shape[1], b.shape[1]):
        ex.oblige('cdist: feature sizes agree', eq(a.shape[1], b.shape[1]), kind='bounds')
    ra, rb = ex.reader(a), ex.reader(b)

    def cell(i):
        def body(k):
            x = sub(ra((i[0], k)), rb((i[1], k)))
            return mul(x, x)
        v = ex.reduce('sum', a.shape[1], body)
        return unary('sqrt')(v) if metric == 'euclidean' else v
    t = ex.tabulate(2, lambda i, j: cell((i, j)))
    return ex.new_arr((a.shape[0], b.shape[0]), lambda i: t(*i))


@P('power')
def np_power(ex, a, b):
    return ex.emap(power, to_array(ex, a), to_array(ex, b))


NP['pow'] = np_power


@P('floor')
def np_floor(ex, x):
    return ex.emap(xfloor, to_array(ex, x))


@P('ceil')
def np_ceil(ex, x):
    return ex.emap(xceil, to_array(ex, x))


@P('round')
def np_round(ex, x, decimals=0):
    if not isinstance(decimals, int):
        raise Unsupported('round decimals')
    return ex.emap(lambda v: xround(v, decimals), to_array(ex, x))


@P('isnan')
def np_isnan(ex, x):
    return ex.emap(lambda v: toX(v).n, to_array(ex, x), dtype='b')


@P('isfinite')
def np_isfinite(ex, x):
    return ex.emap(lambda v: toX(v).finite(), to_array(ex, x), dtype='b')


@P('isinf')
def np_isinf(ex, x):
    return ex.emap(lambda v: Or(toX(v).p, toX(v).m), to_array(ex, x), dtype='b')


@P('logical_not')
def np_lnot(ex, x):
    return ex.emap(lambda v: Not(truth(v)), to_array(ex, x), dtype='b')


@P('logical_and')
def np_land(ex, x, y):
    return ex.emap(lambda a, b: And(truth(a), truth(b)), to_array(ex, x), to_array(ex, y), dtype='b')


@P('logical_or')
def np_lor(ex, x, y):
    return ex.emap(lambda a, b: Or(truth(a), truth(b)), to_array(ex, x), to_array(ex, y), dtype='b')


@P('minimum')
def np_minimum(ex, a, b):
    return ex.emap(minimum, to_array(ex, a), to_array(ex, b))


@P('maximum')
def np_maximum(ex, a, b):
    return ex.emap(maximum, to_array(ex, a), to_array(ex, b))


@P('where')
def np_where(ex, c, a=UNDEF, b=UNDEF):
    if a is UNDEF:
        raise Unsupported('one-argument where')
    return ex.emap(lambda x, y, z: ite(truth(x), y, z), c, to_array(ex, a), to_array(ex, b))


@P('full')
def np_full(ex, shape, fill_value=None, dtype=None, **kw):
    shape = shape_arg(ex, shape)
    v = fill_value
    dt = dt_of(dtype, 'b' if is_bool(v) else ('i' if is_int(v) else 'f'))
    v = coerce(v, dt)
    return ex.new_arr(shape, lambda i: v, dt, 'full')


@P('zeros')
def np_zeros(ex, shape, dtype=None, **kw):
    dt = dt_of(dtype)
    v = coerce(0, dt)
    return ex.new_arr(shape_arg(ex, shape), lambda i: v, dt, 'zeros')


@P('ones')
def np_ones(ex, shape, dtype=None, **kw):
    dt = dt_of(dtype)
    v = coerce(1, dt)
    return ex.new_arr(shape_arg(ex, shape), lambda i: v, dt, 'ones')


@P('empty')
def np_empty(ex, shape, dtype=None, **kw):
    """uninitialised memory: arbitrary contents (may be nan/inf)"""
    dt = dt_of(dtype)
    shape = shape_arg(ex, shape)
    tp = {'f': ('X', True, True, True), 'i': 'I', 'b': 'B'}[dt]
    iv = list(ex.itervars)
    F = VFn('uninit', [x.sort() for x in iv] + [z3.IntSort()] * len(shape), tp)
    return ex.new_arr(shape, lambda i: F(*iv, *[zi(x) for x in i]), dt, 'empty')


@P('zeros_like')
def np_zeros_like(ex, a, dtype=None):
    dt = dt_of(dtype, a.dtype)
    v = coerce(0, dt)
    return ex.new_arr(a.shape, lambda i: v, dt, 'zeros')


@P('ones_like')
def np_ones_like(ex, a, dtype=None):
    dt = dt_of(dtype, a.dtype)
    v = coerce(1, dt)
    return ex.new_arr(a.shape, lambda i: v, dt, 'ones')


@P('empty_like')
def np_empty_like(ex, a, dtype=None):
    return np_empty(ex, a.shape, DType(dt_of(dtype, a.dtype)))


@P('arange')
def np_arange(ex, a, b=None, step=1, dtype=None, device=None):
    lo, hi = (0, a) if b is None else (a, b)
    if not (intlike(lo) and intlike(hi) and step == 1):
        raise Unsupported('arange')
    n = i_sub(hi, lo)
    if isinstance(n, int):
        n = max(n, 0)
    elif ex.decide(n >= 0) is not True:
        n = z3.If(n >= 0, n, z3.IntVal(0))
    return ex.new_arr((n,), lambda i: i_add(lo, i[0]), 'i')


@P('array')
def np_array(ex, v, dtype=None, copy=True, **kw):
    if isinstance(v, (Arr, PList, tuple, SList)):
        a = to_array(ex, v)
        r = ex.reader(a)
        if dtype is not None:
            dt = dt_of(dtype)
            return ex.new_arr(a.shape, lambda i: coerce(r(i), dt), dt)
        return ex.new_arr(a.shape, r, a.dtype, tag=a.tag)
    if is_scalar(v):
        return toX(v) if dtype is not None and dt_of(dtype) == 'f' else v
    if isinstance(v, NestedSeq):
        return v
    if isinstance(v, Obj) and '__array__' in v.attrs:
        return v.attrs['__array__'](ex)
    raise Unsupported(f'array({type(v).__name__})')


@P('asarray')
def np_asarray(ex, v, dtype=None, **kw):
    return v if isinstance(v, Arr) and dtype is None else np_array(ex, v, dtype)


@P('copy')
def np_copy(ex, v):
    return np_array(ex, v)


@P('sum')
def np_sum(ex, a, axis=None, keepdims=False, dtype=None):
    return reduce_arr(ex, 'sum', a, axis, keepdims)


@P('prod')
def np_prod(ex, a, axis=None):
    return reduce_arr(ex, 'prod', a, axis)


@P('min')
def np_min(ex, a, axis=None, keepdims=False, dim=UNDEF):
    if dim is not UNDEF:
        return TorchMin(np_min(ex, a, axis=dim, keepdims=keepdims))
    if isinstance(axis, Arr):      # torch: elementwise form
        return np_minimum(ex, a, axis)
    return reduce_arr(ex, 'min', a, axis, keepdims)


@P('max')
def np_max(ex, a, axis=None, keepdims=False, dim=UNDEF):
    if dim is not UNDEF:
        return TorchMin(np_max(ex, a, axis=dim, keepdims=keepdims))
    if isinstance(axis, Arr):      # torch: elementwise form
        return np_maximum(ex, a, axis)
    return reduce_arr(ex, 'max', a, axis, keepdims)


NP['amin'], NP['amax'] = np_min, np_max


@P('any')
def np_any(ex, a, axis=None):
    return reduce_arr(ex, 'or', a, axis, pre=truth)


@P('all')
def np_all(ex, a, axis=None):
    return reduce_arr(ex, 'and', a, axis, pre=truth)


def count_of(ex, a, axis):
    if axis is None:
        n = 1
        for s in a.shape:
            n = i_mul(n, s)
        return n
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n = i_mul(n, a.shape[axis_norm(x, a.ndim)])
        return n
    return a.shape[axis_norm(axis, a.ndim)]


@P('mean')
def np_mean(ex, a, axis=None, keepdims=False):
    a = to_array(ex, a)
    s = reduce_arr(ex, 'sum', a, axis, keepdims)
    n = count_of(ex, a, axis)
    return ex.emap(lambda x: div(x, n), s)


def _nanred(ex, kind, a, axis, keepdims):
    z = {'sum': XR(rv(0)), 'min': INF, 'max': NINF}[kind]
    return reduce_arr(ex, kind, a, axis, keepdims, pre=lambda v: ite(toX(v).n, z, XR(toX(v).v, toX(v).p, toX(v).m)))


@P('nansum')
def np_nansum(ex, a, axis=None, keepdims=False):
    return _nanred(ex, 'sum', a, axis, keepdims)


@P('nanmean')
def np_nanmean(ex, a, axis=None, keepdims=False):
    s = _nanred(ex, 'sum', a, axis, keepdims)
    n = reduce_arr(ex, 'sum', a, axis, keepdims, pre=lambda v: ite(toX(v).n, 0, 1))
    return ex.emap(lambda x, y: div(x, y), s, n)


@P('nanmin')
def np_nanmin(ex, a, axis=None, keepdims=False):
    r = _nanred(ex, 'min', a, axis, keepdims)
    return r


@P('nanmax')
def np_nanmax(ex, a, axis=None, keepdims=False):
    return _nanred(ex, 'max', a, axis, keepdims)


@P('argmin')
def np_argmin(ex, a, axis=None):
    a = to_array(ex, a)
    return argext(ex, a, axis, lt)


@P('argmax')
def np_argmax(ex, a, axis=None):
    return argext(ex, to_array(ex, a), axis, lambda x, y: lt(y, x))


def argext(ex, a, axis, less):
    if a.ndim != 1 and axis is None:
        raise Unsupported('argmin of a matrix')
    if a.ndim == 1:
        n = a.shape[0]
        r = ex.reader(a)
        if isinstance(n, int) and n <= 16:
            best, bi = r((0,)), 0
            for k in range(1, n):
                c = less(r((k,)), best)
                bi = ite(c, k, bi)
                best = ite(c, r((k,)), best)
            return bi
        # (value, index) pair reduction, first extremum
        def op(acc, e):
            c = less(e[0], acc[0])
            return (ite(c, e[0], acc[0]), ite(c, e[1], acc[1]))
        R = ex.reduce('argext_' + ('min' if less is lt else 'max'), n, lambda k: (toX(r((k,))), k), op=op, init=None)
        return R[1]
    raise Unsupported('argmin axis')


@P('shape')
def np_shape(ex, a):
    a = to_array(ex, a)
    return a.shape if isinstance(a, Arr) else ()


@P('ndim')
def np_ndim(ex, a):
    a = to_array(ex, a)
    return a.ndim if isinstance(a, Arr) else 0


@P('reshape')
def np_reshape(ex, a, shape, *more):
    a = to_array(ex, a)
    if more:
        shape = (shape,) + more
    shape = shape_arg(ex, shape)
    return reshape(ex, a, shape)


def reshape(ex, a, shape):
    if isinstance(a, NestedSeq):
        # rows of equal length: entry (i,j) is element j of block i
        if len(shape) != 2:
            raise Unsupported('reshape of nested sequence')
        ex.oblige('reshape: number of rows', eq(shape[0], a.n), kind='bounds')
        i, j = z3.Int(f'x!{uid()}'), z3.Int(f'x!{uid()}')
        npc = len(ex.pc)
        ex.itervars += [i, j]
        ex.pc += [And(i >= 0, i < zi(a.n)), And(j >= 0, j < zi(shape[1]))]
        try:
            b = a.block(i)
            n = ex.cells[b.len]
            ex.oblige('reshape: row length', eq(n, shape[1]), kind='bounds')
            v = ex.heap[b.store]((j,))
        finally:
            del ex.pc[npc:]
            del ex.itervars[-2:]
        return ex.new_arr(shape, lambda x: subst_any(v, [(i, zi(x[0])), (j, zi(x[1]))]), 'f')
    # supported: insertion/removal of unit dims, and single -1 replacing one dim
    src = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
    dst = [s for s in shape if not (isinstance(s, int) and s == 1)]
    if any(isinstance(s, int) and s == -1 for s in dst):
        if len(dst) == len(src):
            dst = [x if isinstance(y, int) and y == -1 else y for x, y in zip(src, dst)]
            shape = tuple(src[[k for k, y in enumerate([q for q in shape if not (isinstance(q, int) and q == 1)]) if isinstance(y, int) and y == -1][0]]
                          if isinstance(s, int) and s == -1 else s for s in shape)
        elif len(src) == 0 and len(dst) == 1:
            shape = tuple(1 if isinstance(s, int) and s == -1 else s for s in shape)
            dst = []
        elif len(dst) == 1 and len(src) == 2:
            # ravel of a matrix
            n = i_mul(src[0], src[1])
            r = ex.reader(a)
            m = src[1]
            nz = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
            if len(shape) == 1:
                def f(i):
                    idx = [0] * a.ndim
                    idx[nz[0]], idx[nz[1]] = floordiv(i[0], m), mod(i[0], m)
                    return r(tuple(idx))
                return ex.new_arr((n,), f, a.dtype)
            raise Unsupported('reshape')
        else:
            raise Unsupported('reshape')
    if len(src) != len(dst) or not all(ex.dim_eq(x, y) for x, y in zip(src, dst)):
        if all(isinstance(s, int) for s in list(a.shape) + list(shape)):
            r = ex.reader(a)

            def f(i):
                lin = 0
                for s, k in zip(shape, i):
                    lin = i_add(i_mul(lin, s), k)
                idx = []
                for s in reversed(a.shape):
                    idx.append(mod(lin, s))
                    lin = floordiv(lin, s)
                return r(tuple(reversed(idx)))
            return ex.new_arr(shape, f, a.dtype)
        raise Unsupported('reshape')
    snz = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
    dnz = [d for d, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
    pm = a.vmap

    def vmap(i):
        idx = [0] * a.ndim
        for s, d in zip(snz, dnz):
            idx[s] = i[d]
        return pm(tuple(idx)) if pm else tuple(idx)
    return Arr(shape, a.store, vmap, a.dtype)


@P('transpose')
def np_T(ex, a):
    pm = a.vmap
    return Arr(a.shape[::-1], a.store, (lambda i: pm(i[::-1]) if pm else i[::-1]), a.dtype)


@P('expand_dims')
def np_expand(ex, a, axis):
    sh = list(a.shape)
    ax = axis % (a.ndim + 1)
    sh.insert(ax, 1)
    return reshape(ex, a, tuple(sh))


@P('stack')
def np_stack(ex, l, dim=0, axis=0):
    if (dim or axis) != 0:
        raise Unsupported('stack axis')
    return to_array(ex, l)


@P('diag')
def np_diag(ex, a):
    a = to_array(ex, a)
    r = ex.reader(a)
    if a.ndim == 1:
        n = a.shape[0]
        D = ex.new_arr((n, n), lambda i: ite(eq(i[0], i[1]), r((i[0],)), XR(rv(0))), a.dtype)
        D.store.diag = (r, ex.heap[D.store])
        return D
    if a.ndim == 2:
        return ex.new_arr((a.shape[0],), lambda i: r((i[0], i[0])), a.dtype)
    raise Unsupported('diag')


@P('triu_indices')
def np_triu(ex, n, k=0, m=None):
    return TriIdx('u', n, k, n if m is None else m)


@P('tril_indices')
def np_tril(ex, n, k=0, m=None):
    return TriIdx('l', n, k, n if m is None else m)


class TriIdx:
    """row-major index pair lists of a triangle; only used to index square matrices"""

    def __init__(self, kind, n, k, m):
        self.kind, self.n, self.k, self.m = kind, n, k, m

    def inside(self, i, j):
        d = i_sub(j, i)
        return le(self.k, d) if self.kind == 'u' else le(d, self.k)


@P('outer')
def np_outer(ex, a, b):
    ra, rb = ex.reader(a), ex.reader(b)
    return ex.new_arr((a.shape[0], b.shape[0]), lambda i: mul(ra((i[0],)), rb((i[1],))), 'f')


@P('dot')
def np_dot(ex, a, b):
    return matmul(ex, a, b)


def matmul(ex, a, b):
    ra, rb = ex.reader(a), ex.reader(b)
    for x, y, left in ((a, b, True), (b, a, False)):
        d = getattr(x.store, 'diag', None)
        if d is not None and ex.heap[x.store] is d[1] and x.ndim == y.ndim == 2:
            # product with a diagonal matrix; exact when the other factor is finite
            if not ex.dim_eq(a.shape[1], b.shape[0]):
                ex.oblige('matmul: inner sizes agree', eq(a.shape[1], b.shape[0]), kind='bounds')
            vs = [z3.Int(f'm!{uid()}') for _ in range(2)]
            e = toX(ex.rd(y, tuple(vs)))
            ex.oblige('matmul: finite factor', Implies(And(*[And(v >= 0, v < zi(n)) for v, n in zip(vs, y.shape)]), e.finite()), kind='safety')
            f = d[0]
            if left:
                return ex.new_arr((a.shape[0], b.shape[1]), lambda i: mul(f((i[0],)), rb(i)))
            return ex.new_arr((a.shape[0], b.shape[1]), lambda i: mul(ra(i), f((i[1],))))
    if a.ndim == 1 and b.ndim == 1:
        return ex.reduce('sum', a.shape[0], lambda k: mul(ra((k,)), rb((k,))))
    raise Unsupported('matmul')


@P('vstack')
def np_vstack(ex, t):
    raise Unsupported('vstack')


@P('linalg.norm')
def np_norm(ex, a, ord=None, axis=None):
    s = reduce_arr(ex, 'sum', a, axis, pre=lambda v: mul(v, v))
    return ex.emap(unary('sqrt'), s)


@P('isclose')
def np_isclose(ex, a, b, **kw):
    raise Unsupported('isclose')


@P('count_nonzero')
def np_cnz(ex, a, axis=None):
    return reduce_arr(ex, 'sum', a, axis, pre=lambda v: ite(truth(v), 1, 0))


CONST = {'inf': INF, 'nan': NAN, 'newaxis': None, 'pi': None}


# ------------------------------------------------------------------ namespaces
def mod_attr(ex, m, attr):
    full = f'{m}.{attr}'
    if m in ('numpy', 'torch', 'math', 'backend', 'numpy.linalg', 'torch.linalg'):
        if full in ex.externals:
            return Prim(full, ex.externals[full])
        key = ('linalg.' if m.endswith('linalg') else '') + attr
        if attr in ('inf',):
            return INF
        if attr == 'nan':
            return NAN
        if attr == 'newaxis':
            return None
        if attr == 'linalg':
            return ModRef(m + '.linalg')
        if attr in ('float64', 'float32', 'int64', 'int32', 'bool_', 'bool', 'float', 'int', 'double', 'long', 'ndarray'):
            return TypeRef(attr)
        if m == 'math' and attr == 'isclose':
            return Prim(full, math_isclose)
        if key in NP:
            USED.add(full)
            return Prim(full, NP[key])
        raise Unsupported(f'library function {full}')
    if full in ex.externals:
        return Prim(full, ex.externals[full])
    if full in ('numba.njit', 'numba.jit'):
        return Prim(full, p_njit)
    if full == 'numba.prange':
        return Prim(full, b_range)
    if full == 'functools.partial':
        return Prim(full, p_partial)
    if full in ('joblib.Parallel',):
        return Prim(full, p_parallel)
    if full in ('joblib.delayed',):
        return Prim(full, p_delayed)
    if m in ('warnings',):
        return Prim(full, lambda ex, *a, **k: None)
    if m and (m.startswith('sklearn') or m.startswith('numpy') or m.startswith('scipy') or m.startswith('joblib')):
        return ModRef(full)
    return ModRef(full)


def math_isclose(ex, a, b, **kw):
    """math.isclose with default tolerances; only used against 0.0, where it means equality"""
    c = _c(toX(b).v)
    if c == 0:
        return eq(a, 0)
    raise Unsupported('isclose')


def p_njit(ex, *a, **kw):
    if a and isinstance(a[0], FuncVal):
        return a[0]
    return Prim('njit()', lambda ex, f: f)


def p_partial(ex, f, *a, **kw):
    if isinstance(f, FuncVal):
        g = FuncVal(f.node, f.closure, f.module, f.name, f.cls)
        g.defaults, g.kwdefaults, g.selfv = f.defaults, f.kwdefaults, f.selfv
        g.partial = (f.partial[0] + a, {**f.partial[1], **kw})
        return g
    if isinstance(f, Prim):
        return Prim('partial', lambda ex, *b, **k: f.fn(ex, *a, *b, **{**kw, **k}))
    raise Unsupported('partial')


def p_parallel(ex, *a, **kw):
    """joblib.Parallel(...)(delayed(f)(args) ...) == [f(args) ...] in order (library contract)"""
    return Prim('Parallel()', lambda ex, gen: gen)


def p_delayed(ex, f):
    return Prim('delayed()', lambda ex, *a, **k: ex.call(f, a, k))


class BackendV:
    """tslearn backend object: attribute access falls through to the array library (assumed model)"""

    def __init__(self, kind):
        self.kind = kind


def instantiate_backend(ex, *args):
    for a in args:
        if isinstance(a, BackendV):
            return a
        if isinstance(a, str):
            return BackendV('torch' if a in ('torch', 'pytorch') else 'numpy')
    return BackendV(getattr(ex, 'backend', 'numpy'))


def backend_attr(ex, o, name):
    if name == 'is_numpy':
        return o.kind == 'numpy'
    if name == 'is_pytorch':
        return o.kind != 'numpy'
    if name == 'backend_string':
        return 'numpy' if o.kind == 'numpy' else 'pytorch'
    if name == 'is_array':
        return Prim(name, lambda ex, x: isinstance(x, Arr))
    if name == 'ndim':
        return Prim(name, lambda ex, x: x.ndim if isinstance(x, Arr) else 0)
    if name in ('to_numpy', 'from_numpy', 'cast'):
        return Prim(name, lambda ex, x, *a, **k: x)
    return mod_attr(ex, o.kind, name)


def attr(ex, o, name):
    if isinstance(o, BackendV):
        return backend_attr(ex, o, name)
    if isinstance(o, ModRef):
        return mod_attr(ex, o.name, name)
    if isinstance(o, E.Module):
        return ex.module_get(o, name)
    if isinstance(o, Arr):
        return arr_attr(ex, o, name)
    if isinstance(o, SList):
        if name == 'append':
            def app(ex, v):
                n = ex.cells[o.len]
                ex.store_write(o.store, lambda x: eq(x[0], n), lambda x: v, (n,))
                ex.cells[o.len] = i_add(n, 1)
            return Prim('append', app)
        raise Unsupported(f'list.{name}')
    if isinstance(o, NestedSeq) and name == 'reshape':
        return Prim('reshape', lambda ex, *s: reshape(ex, o, s[0] if len(s) == 1 and isinstance(s[0], tuple) else tuple(s)))
    if isinstance(o, PList):
        return plist_attr(ex, o, name)
    if isinstance(o, dict):
        if name == 'get':
            return Prim('get', lambda ex, k, d=None: o.get(k, d))
        if name == 'items':
            return Prim('items', lambda ex: PList([(k, v) for k, v in o.items()]))
        if name == 'keys':
            return Prim('keys', lambda ex: PList(list(o)))
        if name == 'values':
            return Prim('values', lambda ex: PList(list(o.values())))
        if name == 'copy':
            return Prim('copy', lambda ex: dict(o))
    if isinstance(o, str):
        return Prim('str.' + name, lambda ex, *a, **k: '<str>')
    if isinstance(o, (XR,)) or z3.is_expr(o) or isinstance(o, (int, float)):
        if name == 'astype':
            return Prim('astype', lambda ex, d: toint(ex, o) if dt_of(d) == 'i' else toX(o))
        if name == 'item':
            return Prim('item', lambda ex: o)
        if name == 'shape':
            return ()
        if name == 'dtype':
            return DType('f')
    if isinstance(o, TorchMin):
        if name == 'values':
            return o.v
    raise Unsupported(f'attribute {name} of {type(o).__name__}')


class TorchMin:
    def __init__(self, v):
        self.v = v


def plist_attr(ex, o, name):
    if name == 'append':
        def app(ex, v):
            if ex.loopdepth:
                raise Unsupported('append to a plain list in a symbolic loop')
            o.items.append(v)
        return Prim('append', app)
    if name == 'extend':
        return Prim('extend', lambda ex, v: o.items.extend(v.items if isinstance(v, PList) else v))
    if name == 'copy':
        return Prim('copy', lambda ex: PList(o.items))
    raise Unsupported(f'list.{name}')


def arr_attr(ex, a, name):
    if name == 'shape':
        return a.shape
    if name == 'ndim':
        return a.ndim
    if name == 'T':
        return np_T(ex, a)
    if name == 'dtype':
        return DType(a.dtype)
    if name == 'device':
        return None
    if name == 'size':
        return count_of(ex, a, None)
    if name == 'copy' or name == 'clone':
        return Prim('copy', lambda ex: np_array(ex, a))
    if name in ('reshape', 'view'):
        return Prim('reshape', lambda ex, *s, **kw: reshape(ex, a, s[0] if len(s) == 1 and isinstance(s[0], (tuple, PList)) and not isinstance(s[0], PList) else tuple(s)))
    if name in ('sum', 'mean', 'min', 'max', 'any', 'all', 'prod', 'argmin', 'argmax'):
        return Prim(name, lambda ex, axis=None, **kw: NP[name](ex, a, axis=axis, **kw))
    if name == 'astype':
        def astype(ex, d, **kw):
            dt = dt_of(d)
            r = ex.reader(a)
            if dt == 'i' and a.dtype == 'f':
                return ex.new_arr(a.shape, lambda i: toint(ex, r(i)), 'i')
            return ex.new_arr(a.shape, lambda i: coerce(r(i) if not (dt == 'i' and is_bool(r(i))) else zi(r(i)), dt), dt)
        return Prim('astype', astype)
    if name in ('ravel', 'flatten'):
        return Prim('ravel', lambda ex: reshape(ex, a, (-1,)))
    if name == 'item':
        return Prim('item', lambda ex: ex.getitem(a, tuple([0] * a.ndim)))
    if name == 'dot':
        return Prim('dot', lambda ex, b: matmul(ex, a, b))
    if name == 'fill':
        return Prim('fill', lambda ex, v: ex.assign_arr(a, v))
    if name == 'tolist':
        return Prim('tolist', lambda ex: a)
    raise Unsupported(f'array attribute {name}')


# ------------------------------------------------------------------ advanced indexing
def adv_get(ex, a, key):
    if isinstance(key[0], Arr) and key[0].dtype == 'b' and key[0].ndim == 1 and a.ndim == len(key) and all(intlike(k) for k in key[1:]):
        if not ex.dim_eq(key[0].shape[0], a.shape[0]):
            ex.oblige('mask shape agrees', eq(key[0].shape[0], a.shape[0]), kind='bounds')
        m, ra, rest = ex.reader(key[0]), ex.reader(a), tuple(key[1:])
        for k, n in zip(rest, a.shape[1:]):
            ex.oblige('index in bounds', And(le(0, k), lt(k, n)), kind='bounds')
        return Sel(a.shape[0], lambda i: truth(m((i,))), lambda i: ra((i,) + rest))
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b':
        raise Unsupported('boolean selection')
    key = list(key)
    ks = []
    for k in key:
        if isinstance(k, PList):
            k = to_array(ex, k)
        ks.append(k)
    if len(ks) == a.ndim and all(isinstance(k, Arr) and k.dtype == 'i' or intlike(k) for k in ks):
        shape = ex.bshape([k.shape for k in ks if isinstance(k, Arr)])
        rs = [ex.breader(k, shape) for k in ks]
        ra = ex.reader(a)
        if ex.check_bounds:
            bound_check(ex, rs, shape, a.shape)
        return ex.new_arr(shape, lambda i: ra(tuple(r(i) for r in rs)), a.dtype)
    if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].dtype == 'i' and ks[0].ndim == 1:
        rk = ex.reader(ks[0])
        ra = ex.reader(a)
        if ex.check_bounds:
            bound_check(ex, [rk], ks[0].shape, a.shape[:1])
        return ex.new_arr(ks[0].shape + a.shape[1:], lambda i: ra((rk((i[0],)),) + tuple(i[1:])), a.dtype)
    raise Unsupported('advanced indexing')


def bound_check(ex, rs, shape, ashape):
    vs = [z3.Int(f'v!{uid()}') for _ in shape]
    dom = And(*[And(le(0, v), lt(v, n)) for v, n in zip(vs, shape)])
    npc = len(ex.pc)
    ex.pc.append(dom)
    try:
        for r, n in zip(rs, ashape):
            e = r(tuple(vs))
            # numpy wraps negative indices: require the non-wrapping form
            ex.oblige('index array in bounds', And(le(0, e), lt(e, n)), kind='bounds')
    finally:
        del ex.pc[npc:]


def adv_set(ex, a, key, v):
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b':
        m = ex.reader(key[0])
        if key[0].ndim > a.ndim:
            raise Unsupported('boolean mask rank')
        if isinstance(v, Arr):
            raise Unsupported('boolean mask assignment of an array')
        if a.vmap is not None:
            raise Unsupported('boolean mask on a view')
        for x, y in zip(key[0].shape, a.shape):
            if not ex.dim_eq(x, y):
                ex.oblige('mask shape agrees', eq(x, y), kind='bounds')
        vv = coerce(v, a.dtype)
        nd = key[0].ndim
        ex.store_write(a.store, lambda x: truth(m(x[:nd])), lambda x: vv, tuple(z3.Int(f'v!{uid()}') for _ in a.shape))
        return
    ks = [to_array(ex, k) if isinstance(k, PList) else k for k in key]
    if len(ks) == a.ndim and all((isinstance(k, Arr) and k.dtype == 'i' and k.ndim == 1) or intlike(k) for k in ks):
        shape = ex.bshape([k.shape for k in ks if isinstance(k, Arr)])
        rs = [ex.breader(k, shape) for k in ks]
        if ex.check_bounds:
            bound_check(ex, rs, shape, a.shape)
        # scatter: position m -> cell (r0(m), r1(m)); needs an affine inverse
        m = z3.Int(f'v!{uid()}')
        ix = [zi(r((m,))) for r in rs]
        rd = ex.breader(v, shape) if isinstance(v, Arr) else (lambda i: v)
        if a.vmap is not None:
            raise Unsupported('scatter into a view')
        for c, e in enumerate(ix):
            for sgn in (1, -1):
                rest = z3.simplify(e - sgn * m)
                if not _mentions(rest, {m.get_id()}):
                    def back(x, c=c, sgn=sgn, rest=rest):
                        return i_sub(x[c], simp_int(rest)) if sgn == 1 else i_sub(simp_int(rest), x[c])

                    def match(x):
                        mm = back(x)
                        return And(le(0, mm), lt(mm, shape[0]), *[eq(r((mm,)), y) for r, y in zip(rs, x)])
                    dt = a.dtype
                    ex.store_write(a.store, match, lambda x: coerce(rd((back(x),)), dt), tuple(simp_int(i) for i in ix))
                    return
        raise Unsupported('scatter assignment is not affine')
    raise Unsupported('advanced assignment')


def tri_set(ex, a, tri, v):
    """M[triu/tril indices] = v, with v a row-major nested sequence or a gather of the same triangle"""
    old = ex.heap[a.store]
    if a.vmap is not None:
        raise Unsupported('triangle assignment to view')
    if isinstance(v, TriGather):
        if (v.tri.kind, v.tri.k) != (tri.kind, tri.k):
            raise Unsupported('triangle mismatch')
        ra = v.reader
        ex.store_write(a.store, lambda x: tri.inside(x[0], x[1]), lambda x: coerce(ra(x), a.dtype), (z3.Int(f'v!{uid()}'), z3.Int(f'v!{uid()}')))
        return
    if isinstance(v, NestedSeq) and tri.kind == 'u':
        i, j = z3.Int(f'x!{uid()}'), z3.Int(f'x!{uid()}')
        npc = len(ex.pc)
        ex.itervars += [i, j]
        ex.pc += [And(i >= 0, i < zi(tri.n)), And(j >= zi(i_add(i, tri.k)), j < zi(tri.m), j >= 0)]
        try:
            ex.oblige('triangle: number of rows', eq(v.n, tri.n), kind='bounds')
            b = v.block(i)
            n = ex.cells[b.len]
            # row i of the upper triangle holds columns i+k .. m-1
            ex.oblige('triangle: row length', eq(n, i_sub(tri.m, i_add(i, tri.k))), kind='bounds')
            val = ex.heap[b.store]((i_sub(j, i_add(i, tri.k)),))
        finally:
            del ex.pc[npc:]
            del ex.itervars[-2:]
        ex.store_write(a.store, lambda x: tri.inside(x[0], x[1]),
                       lambda x: coerce(subst_any(val, [(i, zi(x[0])), (j, zi(x[1]))]), a.dtype),
                       (z3.Int(f'v!{uid()}'), z3.Int(f'v!{uid()}')))
        return
    raise Unsupported('triangle assignment')


class TriGather:
    def __init__(self, tri, reader):
        self.tri, self.reader = tri, reader


# ------------------------------------------------------------------ builtins
def b_range(ex, a, b=None, st=1):
    lo, hi = (0, a) if b is None else (a, b)
    for x in (lo, hi, st):
        if isinstance(x, XR):
            raise Unsupported('float range')
    if isinstance(lo, bool) or isinstance(hi, bool):
        lo, hi = int(lo), int(hi)
    if not isinstance(st, int):
        raise Unsupported('symbolic range step')
    return RangeV(lo, hi, st)


def b_len(ex, x):
    if isinstance(x, Arr):
        return x.shape[0]
    if isinstance(x, SList):
        return ex.cells[x.len]
    if isinstance(x, PList):
        return len(x.items)
    if isinstance(x, (tuple, dict, str)):
        return len(x)
    if isinstance(x, Obj) and '__len__' in x.attrs:
        return x.attrs['__len__']
    if isinstance(x, RangeV):
        return i_sub(x.hi, x.lo)
    raise Unsupported(f'len of {type(x).__name__}')


def b_minmax(pick2, red):
    def f(ex, *a, **kw):
        if kw:
            raise Unsupported('min/max keyword')
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (PList, tuple)):
                a = x.items if isinstance(x, PList) else x
            elif isinstance(x, (Arr, SList)):
                return NP[red](ex, to_array(ex, x))
            elif isinstance(x, RangeV):
                raise Unsupported('min of range')
            else:
                raise Unsupported('min')
        r = a[0]
        for y in a[1:]:
            r = pick2(r, y)
        return r
    return f


def b_float(ex, x=0):
    if isinstance(x, Arr):
        x = ex.getitem(x, tuple([0] * x.ndim))
    return toX(x) if not isinstance(x, str) else toX(float(x))


def b_isinstance(ex, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    names = [y.name.split('.')[-1] if isinstance(y, (TypeRef, ModRef, ClassVal)) else '?' for y in ts]
    r = False
    for n in names:
        if n == 'int' and is_int(x):
            r = True
        elif n == 'bool' and is_bool(x):
            r = True
        elif n in ('float', 'float64') and isinstance(x, XR):
            r = True
        elif n == 'str' and isinstance(x, str):
            r = True
        elif n == 'list' and isinstance(x, (PList, SList)):
            r = True
        elif n == 'tuple' and isinstance(x, tuple):
            r = True
        elif n == 'dict' and isinstance(x, dict):
            r = True
        elif n in ('ndarray', 'Tensor') and isinstance(x, Arr):
            r = True
        elif n == '?':
            raise Unsupported('isinstance')
    return r


def b_sum(ex, x, start=0):
    if isinstance(x, PList):
        r = start
        for y in x.items:
            r = add(r, y)
        return r
    a = to_array(ex, x)
    return add(np_sum(ex, a), start)


def b_list(ex, x=None):
    if x is None:
        return PList([])
    d = ex.iter_desc(x)
    if d[0] == 'list':
        return PList(d[1])
    if isinstance(x, (SList, Arr)):
        return x
    raise Unsupported('list()')


def b_any(ex, x):
    if isinstance(x, PList):
        return Or(*[truth(y) for y in x.items])
    return np_any(ex, to_array(ex, x))


def b_all(ex, x):
    if isinstance(x, PList):
        return And(*[truth(y) for y in x.items])
    return np_all(ex, to_array(ex, x))


def b_slice(ex, *a):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(*(list(a) + [None])[:3])


def b_getattr(ex, o, n, d=UNDEF):
    try:
        return ex.getattr(o, n)
    except PyRaise:
        if d is UNDEF:
            raise
        return d


def b_hasattr(ex, o, n):
    try:
        ex.getattr(o, n)
        return True
    except PyRaise:
        return False


BUILTINS = {
    'range': b_range, 'len': b_len, 'min': b_minmax(xmin, 'min'), 'max': b_minmax(xmax, 'max'),
    'abs': lambda ex, x: ex.emap(xabs, x), 'sum': b_sum, 'isinstance': b_isinstance, 'list': b_list,
    'tuple': lambda ex, x=(): tuple(ex.iter_desc(x)[1]) if ex.iter_desc(x)[0] == 'list' else (_ for _ in ()).throw(Unsupported('tuple()')),
    'enumerate': lambda ex, x, start=0: EnumV(x, start), 'zip': lambda ex, *a: ZipV(a),
    'round': lambda ex, x, n=0: xround(x, n) if n else toint(ex, xround(x, 0)),
    'any': b_any, 'all': b_all, 'print': lambda ex, *a, **k: None, 'slice': b_slice,
    'getattr': b_getattr, 'hasattr': b_hasattr,
    'reversed': lambda ex, x: ex.getitem(x, SliceV(None, None, -1)) if not isinstance(x, RangeV) else RangeV(i_sub(x.hi, 1), i_sub(x.lo, 1), -1),
    'callable': lambda ex, x: isinstance(x, (FuncVal, Prim)),
    'dict': lambda ex, *a, **k: {**(a[0] if a else {}), **k},
    'super': lambda ex, *a: (_ for _ in ()).throw(Unsupported('super')),
    'type': lambda ex, x: TypeRef(type(x).__name__),
    'id': lambda ex, x: id(x),
}
TYPES = ('int', 'float', 'bool', 'str', 'object')
EXC = ('ValueError', 'TypeError', 'RuntimeWarning', 'KeyError', 'IndexError', 'NotImplementedError', 'RuntimeError',
       'AttributeError', 'Exception', 'AssertionError', 'ImportError')


def builtin(ex, name):
    if name in BUILTINS:
        return Prim(name, BUILTINS[name])
    if name in TYPES:
        return TypeRef(name)
    if name in EXC:
        return Prim(name, lambda ex, *a, **k: name)
    if name == '__name__':
        return 'tslearn'
    return None


def call_type(ex, t, args, kw):
    if t.name in ('float', 'float64', 'double'):
        return b_float(ex, *args)
    if t.name in ('int', 'int64'):
        return toint(ex, *args) if args else 0
    if t.name in ('bool', 'bool_'):
        return truth(args[0])
    if t.name == 'str':
        return '<str>'
    raise Unsupported(f'call of type {t.name}')


def instantiate(ex, cls, args, kw):
    o = Obj(cls)
    m = ex.find_method(cls, '__init__')
    if m is None:
        return o
    f = ex.bind_method(o, m)
    ex.call_func(f, args, kw)
    return o


# tri index get/set go through Arr.index: patch hooks
_old_getitem = E.Ex.getitem
_old_setitem = E.Ex.setitem


def _getitem(self, o, k):
    if isinstance(k, TriIdx) and isinstance(o, Arr):
        return TriGather(k, self.reader(o))
    return _old_getitem(self, o, k)


def _setitem(self, o, k, v):
    if isinstance(k, TriIdx) and isinstance(o, Arr):
        return tri_set(self, o, k, v)
    return _old_setitem(self, o, k, v)


E.Ex.getitem = _getitem
E.Ex.setitem = _setitem
