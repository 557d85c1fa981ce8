"""Extended-real tensor elements: a plain Expr, or Ext(v, nan, pinf, ninf) with
symbolic flags.  IEEE special-value rules, real arithmetic on finite values."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
from . import expr as X
from .expr import Expr, TRUE, FALSE, ZERO, ONE, const


class EngineError(BaseException):
    """the engine cannot interpret something: the check must not give a verdict"""


class Ext:
    __slots__ = ("v", "nan", "pinf", "ninf")

    def __init__(self, v, nan=FALSE, pinf=FALSE, ninf=FALSE):
        self.v, self.nan, self.pinf, self.ninf = v, nan, pinf, ninf

    def __repr__(self):
        return f"Ext({self.v}, nan={self.nan}, +inf={self.pinf}, -inf={self.ninf})"

    def __deepcopy__(self, memo):
        return self


def mkext(v, nan=FALSE, pinf=FALSE, ninf=FALSE):
    if nan is FALSE and pinf is FALSE and ninf is FALSE:
        return v
    if nan is TRUE:
        return NAN
    if pinf is TRUE:
        return PINF
    if ninf is TRUE:
        return NINF
    return Ext(v, nan, pinf, ninf)


NAN = Ext(ZERO, TRUE)
PINF = Ext(ZERO, FALSE, TRUE)
NINF = Ext(ZERO, FALSE, FALSE, TRUE)


def parts(x):
    if type(x) is Ext:
        return x.v, x.nan, x.pinf, x.ninf
    return x, FALSE, FALSE, FALSE


def fin(x):
    """condition: x is finite"""
    if type(x) is Ext:
        return X.not_(X.or_(x.nan, x.pinf, x.ninf))
    return TRUE


_snap_cache = {}


def snap(f: float, single=True) -> Fraction:
    """Read a float constant as the simplest rational it rounds from."""
    k = (f, single)
    r = _snap_cache.get(k)
    if r is not None:
        return r
    if f == int(f) and abs(f) < 1e15:
        r = Fraction(int(f))
    else:
        s = repr(np.float32(f).item()) if False else (np.format_float_positional(np.float32(f), unique=True) if single else repr(f))
        digits = len(s.replace("-", "").replace(".", "").lstrip("0").rstrip("0").split("e")[0])
        if digits <= (5 if single else 12):
            r = Fraction(s)
        else:
            eps = 1.2e-7 if single else 4e-16
            fr = Fraction(f)
            c = fr.limit_denominator(5000 if single else 100000)
            if abs(c - fr) <= Fraction(eps) * abs(fr) / 2:
                r = c
            else:
                r = fr
    _snap_cache[k] = r
    return r


def lift(x, single=False):
    """python / numpy scalar -> element"""
    t = type(x)
    if t is Expr or t is Ext:
        return x
    if t is bool or t is np.bool_:
        return TRUE if x else FALSE
    if t is int:
        return const(x)
    if t is Fraction:
        return const(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return const(snap(x, single))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    e = getattr(x, "_elem", None)
    if e is not None:
        return e
    raise EngineError(f"cannot lift {type(x)}")


def is_concrete(x):
    if type(x) is Ext:
        return x is NAN or x is PINF or x is NINF
    return x.op in ("c", "b")


def to_num(x):
    """bool element -> 0/1 number"""
    if type(x) is Expr and X.is_bool(x):
        return X.ite(x, ONE, ZERO)
    return x


def to_bool(x):
    if type(x) is Expr:
        if X.is_bool(x):
            return x
        return X.ne(x, ZERO)
    # NaN / inf are truthy
    return X.or_(x.nan, x.pinf, x.ninf, X.ne(x.v, ZERO))


# ------------------------------------------------------------------ arithmetic
def add(x, y):
    if type(x) is Expr and type(y) is Expr:
        return X.add(to_num(x), to_num(y))
    a, an, ap, am = parts(to_num(x))
    b, bn, bp, bm = parts(to_num(y))
    nan = X.or_(an, bn, X.and_(ap, bm), X.and_(am, bp))
    p = X.and_(X.not_(nan), X.or_(ap, bp))
    m = X.and_(X.not_(nan), X.or_(am, bm))
    return mkext(X.add(a, b), nan, p, m)


def neg(x):
    x = to_num(x)
    if type(x) is Expr:
        return X.neg(x)
    return mkext(X.neg(x.v), x.nan, x.ninf, x.pinf)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        return X.mul(x, y)
    a, an, ap, am = parts(x)
    b, bn, bp, bm = parts(y)
    ainf, binf = X.or_(ap, am), X.or_(bp, bm)
    fa, fb = X.not_(X.or_(ainf, an)), X.not_(X.or_(binf, bn))
    az, bz = X.and_(fa, X.eq(a, ZERO)), X.and_(fb, X.eq(b, ZERO))
    nan = X.or_(an, bn, X.and_(ainf, bz), X.and_(binf, az))
    apos = X.or_(ap, X.and_(fa, X.lt(ZERO, a)))
    aneg = X.or_(am, X.and_(fa, X.lt(a, ZERO)))
    bpos = X.or_(bp, X.and_(fb, X.lt(ZERO, b)))
    bneg = X.or_(bm, X.and_(fb, X.lt(b, ZERO)))
    inf = X.and_(X.or_(ainf, binf), X.not_(nan))
    p = X.and_(inf, X.or_(X.and_(apos, bpos), X.and_(aneg, bneg)))
    m = X.and_(inf, X.or_(X.and_(apos, bneg), X.and_(aneg, bpos)))
    return mkext(X.mul(a, b), nan, p, m)


def recip(x):
    x = to_num(x)
    a, an, ap, am = parts(x)
    if type(x) is Expr and X.is_nonzero(a):
        return X.div(ONE, a)
    z = X.and_(fin(x), X.eq(a, ZERO))
    inf = X.or_(ap, am)
    if a is ZERO:
        v = ZERO
    elif z is FALSE:
        v = X.div(ONE, a)
    elif z is TRUE:
        v = ZERO
    else:
        v = X.ite(X.eq(a, ZERO), ZERO, X.div(ONE, a))
    if inf is not FALSE:
        v = X.ite(inf, ZERO, v)
    return mkext(v, an, z)      # 1/0 = +inf (negative zero is not modelled)


def div(x, y):
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        if X.is_nonzero(y):
            return X.div(x, y)
        if y is ZERO:
            return mkext(ZERO, X.eq(x, ZERO), X.lt(ZERO, x), X.lt(x, ZERO))
        z = X.eq(y, ZERO)
        if z is FALSE:
            return X.div(x, y)
        return mkext(X.ite(z, ZERO, X.div(x, y)), X.and_(z, X.eq(x, ZERO)),
                     X.and_(z, X.lt(ZERO, x)), X.and_(z, X.lt(x, ZERO)))
    return mul(x, recip(y))


def where(c, x, y):
    c = to_bool(c)
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if type(x) is Expr and type(y) is Expr:
        if X.is_bool(x) != X.is_bool(y):
            x, y = to_num(x), to_num(y)
        return X.ite(c, x, y)
    x, y = to_num(x), to_num(y)
    a, an, ap, am = parts(x)
    b, bn, bp, bm = parts(y)
    # the finite payload of a surely-special side is irrelevant
    if x is NAN or x is PINF or x is NINF:
        v = b
    elif y is NAN or y is PINF or y is NINF:
        v = a
    else:
        v = X.ite(c, a, b)
    return mkext(v, X.ite(c, an, bn), X.ite(c, ap, bp), X.ite(c, am, bm))


# ------------------------------------------------------------------ comparisons
def lt(x, y):
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        return X.lt(x, y)
    a, an, ap, am = parts(x)
    b, bn, bp, bm = parts(y)
    return X.and_(X.not_(an), X.not_(bn), X.or_(
        X.and_(am, X.not_(bm)), X.and_(bp, X.not_(ap)),
        X.and_(fin(x), fin(y), X.lt(a, b))))


def le(x, y):
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        return X.le(x, y)
    a, an, ap, am = parts(x)
    b, bn, bp, bm = parts(y)
    return X.and_(X.not_(an), X.not_(bn), X.or_(am, bp, X.and_(fin(x), fin(y), X.le(a, b))))


def eq(x, y):
    if type(x) is Expr and type(y) is Expr:
        if X.is_bool(x) and X.is_bool(y):
            return X.iff(x, y)
        return X.eq(to_num(x), to_num(y))
    x, y = to_num(x), to_num(y)
    a, an, ap, am = parts(x)
    b, bn, bp, bm = parts(y)
    return X.or_(X.and_(ap, bp), X.and_(am, bm), X.and_(fin(x), fin(y), X.eq(a, b)))


def ne(x, y):
    return X.not_(eq(x, y))


def isnan(x):
    return x.nan if type(x) is Ext else FALSE


def isinf(x):
    return X.or_(x.pinf, x.ninf) if type(x) is Ext else FALSE


def maximum(x, y):       # propagates NaN
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        return X.max_(x, y)
    r = where(le(y, x), x, y)
    return where(X.or_(isnan(x), isnan(y)), NAN, r)


def minimum(x, y):
    x, y = to_num(x), to_num(y)
    if type(x) is Expr and type(y) is Expr:
        return X.min_(x, y)
    r = where(le(x, y), x, y)
    return where(X.or_(isnan(x), isnan(y)), NAN, r)


# ------------------------------------------------------------------ functions
FLOAT_RANGE = [False]     # model float32 exp overflow / underflow
EXP_HI = {"f32": Fraction(8872, 100), "f64": Fraction(70978, 100)}
EXP_LO = {"f32": Fraction(-10397, 100), "f64": Fraction(-74513, 100)}


def exp(x, kind="f32"):
    x = to_num(x)
    if type(x) is Expr:
        if not FLOAT_RANGE[0]:
            return X.exp(x)
        over = X.lt(const(EXP_HI[kind]), x)
        under = X.lt(x, const(EXP_LO[kind]))
        return mkext(X.ite(X.or_(under, over), ZERO, X.exp(x)), FALSE, over)
    v = x.v
    inner = exp(v, kind)
    iv, _, ip, _ = parts(inner)
    return mkext(X.ite(x.ninf, ZERO, iv), x.nan, X.or_(x.pinf, X.and_(fin(x), ip)))


def log(x):
    x = to_num(x)
    if type(x) is Expr:
        if X.is_pos(x) or X.is_pos_deep(x):
            return X.log(x)
        if x is ZERO:
            return NINF
        z, n = X.eq(x, ZERO), X.lt(x, ZERO)
        bad = X.or_(z, n)
        if bad is FALSE:
            return X.log(x)
        return mkext(X.ite(bad, ZERO, X.log(X.ite(bad, ONE, x))), n, FALSE, z)
    f = fin(x)
    z, n = X.and_(f, X.eq(x.v, ZERO)), X.and_(f, X.lt(x.v, ZERO))
    if X.is_pos(x.v):
        v = X.log(x.v)
    else:
        bad = X.le(x.v, ZERO)
        v = X.ite(bad, ZERO, X.log(X.ite(bad, ONE, x.v)))
    return mkext(v, X.or_(x.nan, x.ninf, n), x.pinf, z)


def sqrt(x):
    x = to_num(x)
    if type(x) is Expr:
        if X.is_nonneg(x) or (X.deep_sign[0] and X.deep_sign[0](x) in (0, 1)):
            return X.sqrt(x)
        n = X.lt(x, ZERO)
        if n is FALSE:
            return X.sqrt(x)
        return mkext(X.ite(n, ZERO, X.sqrt(X.ite(n, ZERO, x))), n)
    n = X.and_(fin(x), X.lt(x.v, ZERO))
    v = X.sqrt(X.ite(X.lt(x.v, ZERO), ZERO, x.v))
    return mkext(v, X.or_(x.nan, x.ninf, n), x.pinf)


def lift1(f, pinf=None, ninf=None):
    """apply a total real function; limits give the value at +-inf (None: NaN)"""
    def g(x):
        x = to_num(x)
        if type(x) is Expr:
            return f(x)
        r = f(x.v)
        r = where(x.pinf, NAN if pinf is None else pinf, r)
        r = where(x.ninf, NAN if ninf is None else ninf, r)
        return where(x.nan, NAN, r)
    return g


def _sigmoid(x):
    return X.div(ONE, X.add(ONE, X.exp(X.neg(x))))


def _softplus(x):
    return X.log(X.add(ONE, X.exp(x)))


def _tanh(x):
    # 1 - 2/(1+exp(2x))
    return X.add(ONE, X.scale(X.div(ONE, X.add(ONE, X.exp(X.scale(x, Fraction(2))))), Fraction(-2)))


sigmoid = lift1(_sigmoid, ONE, ZERO)
softplus = lift1(_softplus, PINF, ZERO)
logsigmoid = lift1(lambda x: X.neg(_softplus(X.neg(x))), ZERO, NINF)
tanh = lift1(_tanh, ONE, const(-1))
sin = lift1(lambda x: X.fn("sin", x))
cos = lift1(lambda x: X.fn("cos", x))
erf = lift1(lambda x: X.fn("erf", x), ONE, const(-1))
atan = lift1(lambda x: X.fn("atan", x))
floor = lift1(X.floor, PINF, NINF)
ceil = lift1(lambda x: X.neg(X.floor(X.neg(x))), PINF, NINF)
trunc = lift1(lambda x: x if X.is_int(x) else X.ite(X.lt(x, ZERO), X.neg(X.floor(X.neg(x))), X.floor(x)), PINF, NINF)
abs_ = lift1(X.abs_, PINF, PINF)
sign = lift1(lambda x: X.ite(X.lt(ZERO, x), ONE, X.ite(X.lt(x, ZERO), const(-1), ZERO)), ONE, const(-1))
lgamma = lift1(lambda x: X.fn("lgamma", x), PINF, PINF)
digamma = lift1(lambda x: X.fn("digamma", x))


def round_half_even(x):
    def f(x):
        if X.is_int(x):
            return x
        h = X.floor(X.add(x, const(Fraction(1, 2))))
        tie = X.eq(X.add(x, const(Fraction(1, 2))), h)
        odd = X.eq(X.sub(h, X.scale(X.floor(X.scale(h, Fraction(1, 2))), Fraction(2))), ONE)
        return X.ite(X.and_(tie, odd), X.sub(h, ONE), h)
    return lift1(f, PINF, NINF)(x)


def powi(x, n):
    """integer power"""
    if n == 0:
        return ONE
    if n < 0:
        return recip(powi(x, -n))
    x = to_num(x)
    if type(x) is Expr:
        return X.power(x, n)
    r = x
    for _ in range(n - 1):
        r = mul(r, x)
    return r


def pow_(x, y):
    x, y = to_num(x), to_num(y)
    if type(y) is Expr and y.op == "c":
        n = y.args
        if n.denominator == 1 and abs(n) <= 64:
            return powi(x, int(n))
        if n == Fraction(1, 2):
            return sqrt(x)
        if n == Fraction(-1, 2):
            return recip(sqrt(x))
    if type(x) is Expr and X.is_pos_deep(x):
        return exp(mul(y, log(x)))
    if type(y) is Expr and X.is_int(y):
        lo, _, hi, _ = X.interval(y)
        if lo is not None and hi is not None and hi - lo <= 32:
            r = powi(x, int(hi))
            for k in range(int(hi) - 1, int(lo) - 1, -1):
                r = where(X.eq(y, const(k)), powi(x, k), r)
            return r
    if type(x) is Expr and x is ZERO and type(y) is Expr and X.is_pos(y):
        return ZERO
    if type(x) is Expr and type(y) is Expr:      # general powers of a base of either sign
        from .engine import engine
        if engine.fork(X.lt(ZERO, x)):
            return exp(mul(y, log(x)))
        if engine.fork(X.eq(x, ZERO)):
            return where(lt(ZERO, y), ZERO, where(X.eq(y, ZERO), ONE, lift(math.inf)))
        if type(y) is Expr and y.op == "c" and y.args.denominator != 1:
            return lift(math.nan)
    raise EngineError(f"pow({x}, {y})")


def remainder(x, y):
    """python-style modulo"""
    if type(x) is Expr and type(y) is Expr and y.op == "c" and y.args != 0:
        q = X.floor(X.scale(to_num(x), 1 / y.args))
        return X.sub(to_num(x), X.scale(q, y.args))
    if type(x) is Expr and type(y) is Expr:
        q = X.floor(X.div(x, y))
        return X.sub(x, X.mul(q, y))
    raise EngineError("remainder")


def vsum(xs):
    """sum of many elements (flat add for speed)"""
    if all(type(x) is Expr for x in xs):
        return X.add(*[to_num(x) for x in xs])
    r = ZERO
    plain = [to_num(x) for x in xs if type(x) is Expr]
    r = X.add(*plain) if plain else ZERO
    for x in xs:
        if type(x) is not Expr:
            r = add(r, x)
    return r
