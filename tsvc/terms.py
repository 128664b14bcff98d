"""Scalar terms of the verification-condition generator.

Integers are mathematical integers (z3 Int), booleans are z3 Bool, floating
point numbers are *extended reals*: a real value plus three flags (+inf, -inf,
nan).  Opaque objects (time series handed to an abstract distance, ...) are
terms of the uninterpreted sort U.
"""
import itertools
import math
from fractions import Fraction
import z3

z3.set_param('model.completion', True)
U = z3.DeclareSort('U')
_ctr = itertools.count()


def uid():
    return next(_ctr)


def reset():
    global _ctr
    _ctr = itertools.count()


class Unsupported(Exception):
    """The construct is outside the verified subset (=> undecided, never a violation)."""


# ---------------------------------------------------------------- booleans
def is_b(x):
    return isinstance(x, bool)


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def _norm(a):
    if isinstance(a, bool):
        return a
    if z3.is_true(a):
        return True
    if z3.is_false(a):
        return False
    return a


def And(*xs):
    out = []
    for x in xs:
        x = _norm(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = _norm(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


# ---------------------------------------------------------------- extended reals
class XR:
    __slots__ = ('v', 'p', 'm', 'n')

    def __init__(self, v, p=False, m=False, n=False):
        self.v, self.p, self.m, self.n = v, _norm(p), _norm(m), _norm(n)

    def finite(self):
        return And(Not(self.p), Not(self.m), Not(self.n))

    def __repr__(self):
        return f'XR({self.v},{self.p},{self.m},{self.n})'


def rv(x):
    if isinstance(x, float):
        x = Fraction(x)
    return z3.RealVal(x)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (z3.is_expr(x) and x.sort() == z3.IntSort())


def is_bool(x):
    return isinstance(x, bool) or z3.is_bool(x)


def is_u(x):
    return z3.is_expr(x) and x.sort() == U


def is_scalar(x):
    return isinstance(x, (bool, int, float, Fraction, XR)) or z3.is_expr(x)


def toX(x):
    if isinstance(x, XR):
        return x
    if isinstance(x, bool):
        return XR(rv(int(x)))
    if isinstance(x, int):
        return XR(rv(x))
    if isinstance(x, Fraction):
        return XR(rv(x))
    if isinstance(x, float):
        if math.isnan(x):
            return XR(rv(0), n=True)
        if math.isinf(x):
            return XR(rv(0), p=x > 0, m=x < 0)
        return XR(rv(Fraction(x)))
    if z3.is_expr(x):
        if x.sort() == z3.IntSort():
            return XR(z3.ToReal(x))
        if x.sort() == z3.RealSort():
            return XR(x)
        if z3.is_bool(x):
            return XR(z3.If(x, rv(1), rv(0)))
    raise Unsupported(f'not a number: {x!r}')


INF = XR(rv(0), p=True)
NINF = XR(rv(0), m=True)
NAN = XR(rv(0), n=True)


def zi(x):
    """integer term"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_expr(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x) and x.sort() == z3.IntSort():
        return x
    raise Unsupported(f'not an int: {x!r}')


def simp_int(x):
    if isinstance(x, (int, bool)):
        return int(x)
    s = z3.simplify(x)
    if z3.is_int_value(s):
        return s.as_long()
    return s


def const_real(e):
    s = z3.simplify(e)
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


# ---------------------------------------------------------------- arithmetic
_mulf = None


def i_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) + int(b)
    if isinstance(a, int) and a == 0 and not isinstance(a, bool):
        return b
    if isinstance(b, int) and b == 0 and not isinstance(b, bool):
        return a
    return simp_int(zi(a) + zi(b))


def i_sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) - int(b)
    return simp_int(zi(a) - zi(b))


def i_mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a) * int(b)
    return simp_int(zi(a) * zi(b))


def intlike(x):
    return is_int(x) or is_bool(x)


def _mixed(a, b):
    """bitwise float/int domain choice"""
    if intlike(a) and intlike(b):
        return 'i'
    return 'f'


def add(a, b):
    if _mixed(a, b) == 'i':
        return i_add(a, b)
    a, b = toX(a), toX(b)
    p = Or(a.p, b.p)
    m = Or(a.m, b.m)
    n = Or(a.n, b.n, And(a.p, b.m), And(a.m, b.p))
    return XR(fold2(a.v, b.v, lambda x, y: x + y, '+'), And(p, Not(n)) if n is not False else p,
              And(m, Not(n)) if n is not False else m, n)


NONNEG = set()      # names of real functions whose values are >= 0 by construction


def syn_nonneg(e, depth=0):
    """syntactic proof that a real term is non-negative"""
    c = _rc(e)
    if c is not None:
        return c >= 0
    if depth > 6 or not z3.is_app(e):
        return False
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return e.decl().name() in NONNEG
    if k == z3.Z3_OP_ADD:
        return all(syn_nonneg(a, depth + 1) for a in e.children())
    if k == z3.Z3_OP_MUL:
        a = e.children()
        return (len(a) == 2 and a[0].eq(a[1])) or all(syn_nonneg(x, depth + 1) for x in a)
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if z3.is_lt(c) and c.arg(0).eq(b) and _rc(c.arg(1)) == 0 and z3.simplify(a + b).eq(rv(0)):
            return True
        return syn_nonneg(a, depth + 1) and syn_nonneg(b, depth + 1)
    return False


def fold2(x, y, f, op):
    cx, cy = _rc(x), _rc(y)
    if op == '*' and x.eq(y) and z3.is_app(x) and x.decl().name() == 'sqrt' and syn_nonneg(x.arg(0)):
        return x.arg(0)
    if cx is not None and cy is not None:
        return rv(f(cx, cy))
    if op == '+':
        if cx == 0:
            return y
        if cy == 0:
            return x
    if op == '-' and cy == 0:
        return x
    if op == '*':
        if cx == 1:
            return y
        if cy == 1:
            return x
        if cx == 0 or cy == 0:
            return rv(0)
    return f(x, y)


def _rc(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def neg(a):
    if is_bool(a):
        a = zi(a)
    if is_int(a):
        return -a if isinstance(a, int) else simp_int(-a)
    a = toX(a)
    c = _rc(a.v)
    return XR(rv(-c) if c is not None else -a.v, a.m, a.p, a.n)


def sub(a, b):
    if _mixed(a, b) == 'i':
        return i_sub(a, b)
    a, b = toX(a), toX(b)
    n = Or(a.n, b.n, And(a.p, b.p), And(a.m, b.m))
    p = Or(a.p, b.m)
    m = Or(a.m, b.p)
    if n is not False:
        p, m = And(p, Not(n)), And(m, Not(n))
    return XR(fold2(a.v, b.v, lambda x, y: x - y, '-'), p, m, n)


def mul(a, b):
    if _mixed(a, b) == 'i':
        return i_mul(a, b)
    a, b = toX(a), toX(b)
    ia, ib = Or(a.p, a.m), Or(b.p, b.m)
    v = fold2(a.v, b.v, lambda x, y: x * y, '*')
    if ia is False and ib is False:
        return XR(v, n=Or(a.n, b.n))
    sa_pos = Or(a.p, And(Not(a.m), a.v > 0))
    sb_pos = Or(b.p, And(Not(b.m), b.v > 0))
    za = And(Not(ia), a.v == 0)
    zb_ = And(Not(ib), b.v == 0)
    inf = Or(ia, ib)
    n = Or(a.n, b.n, And(inf, Or(za, zb_)))
    p = And(inf, Not(n), zb(sa_pos) == zb(sb_pos))
    m = And(inf, Not(n), zb(sa_pos) != zb(sb_pos))
    return XR(v, p, m, n)


def div(a, b, onzero=None):
    """numpy/numba semantics on reals; division by zero is reported through onzero"""
    a, b = toX(a), toX(b)
    cb = _rc(b.v)
    if cb is not None and cb != 0 and b.p is False and b.m is False:
        return mul(a, XR(rv(Fraction(1) / cb), n=b.n))
    if onzero is not None:
        onzero(And(b.finite(), b.v == 0))
    ib = Or(b.p, b.m)
    v = a.v / b.v
    if ib is not False:
        v = z3.If(zb(ib), rv(0), v)
    ia = Or(a.p, a.m)
    n = Or(a.n, b.n, And(ia, ib))
    if ia is False:
        return XR(v, n=n)
    sb = And(b.v >= 0)
    p = And(Not(n), Or(And(a.p, sb), And(a.m, Not(sb))))
    m = And(Not(n), Or(And(a.m, sb), And(a.p, Not(sb))))
    return XR(v, p, m, n)


def floordiv(a, b):
    if intlike(a) and intlike(b):
        if isinstance(a, int) and isinstance(b, int):
            return a // b
        if isinstance(b, int) and b > 0:
            return simp_int(zi(a) / zi(b))
        # z3 div rounds so that remainder is >= 0: for negative divisors use ite
        A, B = zi(a), zi(b)
        return simp_int(z3.If(B > 0, A / B, (-A) / (-B)))
    raise Unsupported('float floordiv')


def mod(a, b):
    if intlike(a) and intlike(b):
        if isinstance(a, int) and isinstance(b, int):
            return a % b
        return simp_int(zi(a) - zi(b) * zi(floordiv(a, b)))
    raise Unsupported('float mod')


def lt(a, b):
    if _mixed(a, b) == 'i':
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return _norm(z3.simplify(zi(a) < zi(b)))
    a, b = toX(a), toX(b)
    ca, cb = _rc(a.v), _rc(b.v)
    base = (ca < cb) if ca is not None and cb is not None else a.v < b.v
    r = Or(And(a.m, Not(b.m)), And(b.p, Not(a.p)),
           And(Not(a.p), Not(a.m), Not(b.p), Not(b.m), base))
    return And(Not(a.n), Not(b.n), r)


def le(a, b):
    if _mixed(a, b) == 'i':
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        return _norm(z3.simplify(zi(a) <= zi(b)))
    a, b = toX(a), toX(b)
    ca, cb = _rc(a.v), _rc(b.v)
    base = (ca <= cb) if ca is not None and cb is not None else a.v <= b.v
    r = Or(a.m, b.p, And(Not(a.p), Not(b.m), Not(a.m), Not(b.p), base))
    return And(Not(a.n), Not(b.n), r)


def eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(*[eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    """Python == on scalars"""
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return _norm(z3.simplify(zb(a) == zb(b)))
    if intlike(a) and intlike(b):
        if isinstance(a, int) and isinstance(b, int):
            return int(a) == int(b)
        return _norm(z3.simplify(zi(a) == zi(b)))
    if is_u(a) and is_u(b):
        return _norm(z3.simplify(a == b))
    a, b = toX(a), toX(b)
    ca, cb = _rc(a.v), _rc(b.v)
    base = (ca == cb) if ca is not None and cb is not None else a.v == b.v
    fa = And(Not(a.p), Not(a.m))
    fb = And(Not(b.p), Not(b.m))
    return And(Not(a.n), Not(b.n), Or(And(a.p, b.p), And(a.m, b.m), And(fa, fb, base)))


def same(a, b):
    """specification-level equality (nan equals nan); structural on tuples"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return And(*[same(x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    if isinstance(a, XR) or isinstance(b, XR) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        a, b = toX(a), toX(b)
        ca, cb = _rc(a.v), _rc(b.v)
        base = (ca == cb) if ca is not None and cb is not None else a.v == b.v

        def iff(x, y):
            if isinstance(x, bool) and isinstance(y, bool):
                return x == y
            if isinstance(x, bool):
                return y if x else Not(y)
            if isinstance(y, bool):
                return x if y else Not(x)
            return x == y
        return And(iff(a.n, b.n), iff(a.p, b.p), iff(a.m, b.m), Or(a.n, a.p, a.m, base))
    return eq(a, b)


class Bot:
    """content of a list cell that was never written (reads are bounds-checked)"""


BOT = Bot()


def ite(c, a, b):
    c = _norm(c)
    if a is BOT or b is BOT:
        return b if a is BOT else a
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (tuple,)) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        if a.eq(b):
            return a
        return z3.If(c, zb(a), zb(b))
    if is_int(a) and is_int(b):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        za, zb_ = zi(a), zi(b)
        if za.eq(zb_):
            return a
        return z3.If(c, za, zb_)
    if is_u(a) and is_u(b):
        return a if a.eq(b) else z3.If(c, a, b)
    if is_scalar(a) and is_scalar(b):
        a, b = toX(a), toX(b)
        v = a.v if a.v.eq(b.v) else z3.If(c, a.v, b.v)
        return XR(v, ite(c, a.p, b.p), ite(c, a.m, b.m), ite(c, a.n, b.n))
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    raise Unsupported(f'cannot merge {type(a).__name__} with {type(b).__name__}')


def xmin(a, b):
    """Python/numba min: returns the first argument unless the second is smaller"""
    return ite(lt(b, a), b, a)


def xmax(a, b):
    return ite(lt(a, b), b, a)


def minimum(a, b):   # numpy (nan-propagating)
    if intlike(a) and intlike(b):
        return ite(lt(b, a), b, a)
    a, b = toX(a), toX(b)
    r = ite(lt(b, a), b, a)
    n = Or(a.n, b.n)
    return XR(r.v, And(r.p, Not(n)), And(r.m, Not(n)), n) if n is not False else r


def maximum(a, b):
    if intlike(a) and intlike(b):
        return ite(lt(a, b), b, a)
    a, b = toX(a), toX(b)
    r = ite(lt(a, b), b, a)
    n = Or(a.n, b.n)
    return XR(r.v, And(r.p, Not(n)), And(r.m, Not(n)), n) if n is not False else r


def truth(x):
    if isinstance(x, bool) or z3.is_bool(x):
        return _norm(x)
    if x is None:
        return False
    if isinstance(x, str):
        return len(x) > 0
    if is_int(x):
        return eq(x, 0) is not True if isinstance(x, int) else Not(eq(x, 0))
    if isinstance(x, (XR, float, Fraction)):
        x = toX(x)
        return Or(x.n, Not(eq(x, 0)))
    if isinstance(x, (list, tuple, dict)):
        return len(x) > 0
    raise Unsupported(f'truth of {type(x).__name__}')
