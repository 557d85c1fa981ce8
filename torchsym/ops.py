"""ATen operator semantics on symbolic elements."""
from __future__ import annotations
import math
from fractions import Fraction
import numpy as np
import torch
from . import expr as X
from . import elem as E
from .elem import EngineError
from .engine import engine
from . import tensor as T
from .tensor import (SymTensor, handler, vals, from_vals, meta, write, cast_arr, _map1, _map2, _map3, _np0, concrete_index,
                     HANDLERS, sym_copy, lift_plain, to_plain, legit, _MetaError, concrete_value)

ZERO, ONE, TRUE, FALSE, const = X.ZERO, X.ONE, X.TRUE, X.FALSE, X.const
HALF = Fraction(1, 2)


def V(a):
    """tensor / scalar -> object array"""
    if isinstance(a, torch.Tensor):
        return vals(a)
    return _np0(E.lift(a))


def out(v, m):
    """wrap result values with the dtype / strides of the meta result"""
    if tuple(v.shape) != tuple(m.shape):
        v = np.broadcast_to(v, tuple(m.shape))
    return from_vals(cast_arr(v, m.dtype), m.dtype, tuple(m.stride()))


def A(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


# ------------------------------------------------------------------ pointwise
def unary(*names):
    def deco(f):
        def h(func, args, kwargs):
            m = meta(func, args, kwargs)
            return out(_map1(f, V(args[0])), m)
        for n in names:
            HANDLERS["aten::" + n] = h
        return f
    return deco


def binary(*names):
    def deco(f):
        def h(func, args, kwargs):
            m = meta(func, args, kwargs)
            return out(_map2(f, V(args[0]), V(args[1])), m)
        for n in names:
            HANDLERS["aten::" + n] = h
        return f
    return deco


unary("neg", "negative")(E.neg)
unary("abs", "absolute")(E.abs_)
unary("log")(E.log)
unary("log1p")(lambda x: E.log(E.add(ONE, x)))
unary("log2")(lambda x: E.div(E.log(x), E.log(const(2))))
unary("log10")(lambda x: E.div(E.log(x), E.log(const(10))))
unary("expm1")(lambda x: E.sub(E.exp(x), ONE))
unary("exp2")(lambda x: E.exp(E.mul(x, X.log(const(2)))))
unary("sigmoid")(E.sigmoid)
unary("log_sigmoid")(E.logsigmoid)
unary("tanh")(E.tanh)
unary("sqrt")(E.sqrt)
unary("rsqrt")(lambda x: E.recip(E.sqrt(x)))
unary("reciprocal")(E.recip)
unary("square")(lambda x: E.mul(x, x))
unary("sin")(E.sin)
unary("cos")(E.cos)
unary("tan")(lambda x: E.div(E.sin(x), E.cos(x)))
unary("sinh")(lambda x: E.mul(const(HALF), E.sub(E.exp(x), E.exp(E.neg(x)))))
unary("cosh")(lambda x: E.mul(const(HALF), E.add(E.exp(x), E.exp(E.neg(x)))))
unary("erf")(E.erf)
unary("erfc")(lambda x: E.sub(ONE, E.erf(x)))
unary("erfinv")(lambda x: E.lift1(lambda y: X.fn("erfinv", y))(x))
unary("atan")(E.atan)
unary("lgamma")(E.lgamma)
unary("digamma")(E.digamma)
unary("floor")(E.floor)
unary("ceil")(E.ceil)
unary("trunc", "fix")(E.trunc)
unary("sign", "sgn")(E.sign)
unary("isnan")(E.isnan)
unary("isinf")(E.isinf)
unary("isposinf")(lambda x: x.pinf if type(x) is E.Ext else FALSE)
unary("isneginf")(lambda x: x.ninf if type(x) is E.Ext else FALSE)
unary("isfinite")(lambda x: E.fin(x))
unary("relu")(lambda x: E.maximum(x, ZERO))
unary("logical_not")(lambda x: X.not_(E.to_bool(x)))
unary("deg2rad")(lambda x: E.mul(x, const(Fraction(math.pi) / 180)))
unary("silu")(lambda x: E.mul(x, E.sigmoid(x)))
unary("frac")(lambda x: E.sub(x, E.trunc(x)))
unary("relu6")(lambda x: E.minimum(E.maximum(x, ZERO), const(6)))
unary("signbit")(lambda x: E.lt(x, ZERO))
HANDLERS["prims::signbit"] = HANDLERS["aten::signbit"]


@handler("aten::round")
def _round(func, args, kwargs):
    m = meta(func, args, kwargs)
    k = const(Fraction(10) ** int(A(args, kwargs, 1, "decimals", 0)))
    return out(_map1(lambda x: E.div(E.round_half_even(E.mul(x, k)), k), V(args[0])), m)


@handler("aten::hardtanh")
def _hardtanh(func, args, kwargs):
    m = meta(func, args, kwargs)
    lo, hi = E.lift(A(args, kwargs, 1, "min_val", -1)), E.lift(A(args, kwargs, 2, "max_val", 1))
    return out(_map1(lambda x: E.minimum(E.maximum(x, lo), hi), V(args[0])), m)
unary("positive")(lambda x: x)


@handler("aten::exp")
def _exp(func, args, kwargs):
    m = meta(func, args, kwargs)
    kind = "f64" if m.dtype == torch.float64 else "f32"
    return out(_map1(lambda x: E.exp(x, kind), V(args[0])), m)


def _bitnot(func, args, kwargs):
    m = meta(func, args, kwargs)
    if m.dtype == torch.bool:
        return out(_map1(lambda x: X.not_(E.to_bool(x)), V(args[0])), m)
    return out(_map1(lambda x: E.sub(const(-1), x), V(args[0])), m)


HANDLERS["aten::bitwise_not"] = _bitnot
binary("hypot")(lambda a, b: E.sqrt(E.add(E.mul(a, a), E.mul(b, b))))
HANDLERS["prims::hypot"] = HANDLERS["aten::hypot"]


def _addsub(f):
    def h(func, args, kwargs):
        m = meta(func, args, kwargs)
        alpha = kwargs.get("alpha", 1)
        a, b = V(args[0]), V(args[1])
        if m.dtype == torch.bool:
            return out(_map2(lambda x, y: X.or_(E.to_bool(x), E.to_bool(y)), a, b), m)
        if not (isinstance(alpha, int) and alpha == 1):
            al = E.lift(alpha)
            b = _map1(lambda x: E.mul(al, x), b)
        return out(_map2(f, a, b), m)
    return h


HANDLERS["aten::add"] = _addsub(E.add)
HANDLERS["aten::sub"] = HANDLERS["aten::subtract"] = _addsub(E.sub)
HANDLERS["aten::rsub"] = _addsub(lambda x, y: E.sub(y, x))


def _mulh(func, args, kwargs):
    m = meta(func, args, kwargs)
    if m.dtype == torch.bool:
        return out(_map2(lambda x, y: X.and_(E.to_bool(x), E.to_bool(y)), V(args[0]), V(args[1])), m)
    return out(_map2(E.mul, V(args[0]), V(args[1])), m)


HANDLERS["aten::mul"] = HANDLERS["aten::multiply"] = _mulh
binary("maximum", "fmax_")(E.maximum)
binary("minimum")(E.minimum)
binary("fmax")(lambda x, y: E.where(E.isnan(x), y, E.where(E.isnan(y), x, E.maximum(x, y))))
binary("fmin")(lambda x, y: E.where(E.isnan(x), y, E.where(E.isnan(y), x, E.minimum(x, y))))
binary("eq")(E.eq)
binary("ne", "not_equal")(E.ne)
binary("lt", "less")(E.lt)
binary("le", "less_equal")(E.le)
binary("gt", "greater")(lambda x, y: E.lt(y, x))
binary("ge", "greater_equal")(lambda x, y: E.le(y, x))
binary("logical_and")(lambda x, y: X.and_(E.to_bool(x), E.to_bool(y)))
binary("logical_or")(lambda x, y: X.or_(E.to_bool(x), E.to_bool(y)))
binary("logical_xor")(lambda x, y: X.not_(X.iff(E.to_bool(x), E.to_bool(y))))
binary("remainder")(E.remainder)
binary("xlogy")(lambda x, y: E.where(E.eq(x, ZERO), E.where(E.isnan(y), E.NAN, ZERO), E.mul(x, E.log(y))))
binary("logaddexp")(lambda x, y: _lse([x, y]))
binary("fmod")(lambda x, y: E.sub(x, E.mul(y, E.trunc(E.div(x, y)))))
binary("sigmoid_backward")(lambda g, y: E.mul(g, E.mul(y, E.sub(ONE, y))))
binary("tanh_backward")(lambda g, y: E.mul(g, E.sub(ONE, E.mul(y, y))))
binary("copysign")(lambda x, y: E.where(E.lt(y, ZERO), E.neg(E.abs_(x)), E.abs_(x)))


def _bitop(fb):
    def h(func, args, kwargs):
        m = meta(func, args, kwargs)
        if m.dtype != torch.bool:
            a, b = (to_plain(x) if isinstance(x, SymTensor) else x for x in args[:2])
            if a is None or b is None:
                raise EngineError("integer bit operation on symbolic values")
            return sym_copy(func(a, b))
        return out(_map2(lambda x, y: fb(E.to_bool(x), E.to_bool(y)), V(args[0]), V(args[1])), m)
    return h


for _n in ("bitwise_and", "__and__"):
    HANDLERS["aten::" + _n] = _bitop(X.and_)
for _n in ("bitwise_or", "__or__"):
    HANDLERS["aten::" + _n] = _bitop(X.or_)
for _n in ("bitwise_xor", "__xor__"):
    HANDLERS["aten::" + _n] = _bitop(lambda x, y: X.not_(X.iff(x, y)))


@handler("aten::div", "aten::divide", "aten::true_divide", "aten::floor_divide")
def _div(func, args, kwargs):
    m = meta(func, args, kwargs)
    mode = kwargs.get("rounding_mode")
    if func._schema.name == "aten::floor_divide":
        mode = "floor"
    f = E.div
    if mode == "floor":
        f = lambda x, y: E.floor(E.div(x, y))
    elif mode == "trunc":
        f = lambda x, y: E.trunc(E.div(x, y))
    a, b = V(args[0]), V(args[1])
    if isinstance(args[1], torch.Tensor) and False:
        pass
    return out(_map2(f, a, b), m)


@handler("aten::pow", "aten::float_power")
def _pow(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map2(E.pow_, V(args[0]), V(args[1])), m)


@handler("aten::where")
def _where(func, args, kwargs):
    if len(args) == 1:
        return _nonzero_tuple(args[0])
    m = meta(func, args, kwargs)
    return out(_map3(E.where, V(args[0]), V(args[1]), V(args[2])), m)


@handler("aten::masked_fill")
def _masked_fill(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map3(lambda x, c, v: E.where(c, v, x), V(args[0]), V(args[1]), V(args[2])), m)


@handler("aten::clamp", "aten::clip")
def _clamp(func, args, kwargs):
    m = meta(func, args, kwargs)
    lo, hi = A(args, kwargs, 1, "min"), A(args, kwargs, 2, "max")
    v = V(args[0])
    if lo is not None:
        v = _map2(E.maximum, v, V(lo))
    if hi is not None:
        v = _map2(E.minimum, v, V(hi))
    return out(v, m)


@handler("aten::clamp_min")
def _clamp_min(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map2(E.maximum, V(args[0]), V(args[1])), m)


@handler("aten::clamp_max")
def _clamp_max(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map2(E.minimum, V(args[0]), V(args[1])), m)


@handler("aten::lerp")
def _lerp(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map3(lambda a, b, w: E.add(a, E.mul(w, E.sub(b, a))), V(args[0]), V(args[1]), V(args[2])), m)


@handler("aten::addcmul")
def _addcmul(func, args, kwargs):
    m = meta(func, args, kwargs)
    k = E.lift(kwargs.get("value", 1))
    return out(_map3(lambda a, b, c: E.add(a, E.mul(k, E.mul(b, c))), V(args[0]), V(args[1]), V(args[2])), m)


@handler("aten::addcdiv")
def _addcdiv(func, args, kwargs):
    m = meta(func, args, kwargs)
    k = E.lift(kwargs.get("value", 1))
    return out(_map3(lambda a, b, c: E.add(a, E.mul(k, E.div(b, c))), V(args[0]), V(args[1]), V(args[2])), m)


@handler("aten::nan_to_num")
def _nan_to_num(func, args, kwargs):
    m = meta(func, args, kwargs)
    fi = torch.finfo(m.dtype) if m.dtype.is_floating_point else torch.iinfo(m.dtype)
    nan = A(args, kwargs, 1, "nan")
    p = A(args, kwargs, 2, "posinf")
    n = A(args, kwargs, 3, "neginf")
    nan = E.lift(0 if nan is None else nan)
    p = E.lift(fi.max if p is None else p)
    n = E.lift(fi.min if n is None else n)

    def f(x):
        if type(x) is not E.Ext:
            return x
        r = E.where(x.nan, nan, x.v)
        r = E.where(x.pinf, p, r)
        return E.where(x.ninf, n, r)
    return out(_map1(f, V(args[0])), m)


@handler("aten::softplus")
def _softplus(func, args, kwargs):
    m = meta(func, args, kwargs)
    b = E.lift(A(args, kwargs, 1, "beta", 1))
    th = E.lift(A(args, kwargs, 2, "threshold", 20))
    if b is ONE:
        f = E.softplus           # the linear tail above the threshold agrees to 2e-9
    else:
        f = lambda x: E.div(E.softplus(E.mul(b, x)), b)
    if th.op == "c" and b.op == "c" and th.args * 1 < 8:
        g = f
        f = lambda x: E.where(E.lt(th, E.mul(b, x)), x, g(x))
    return out(_map1(f, V(args[0])), m)


@handler("aten::softplus_backward")
def _softplus_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    b = E.lift(args[2])
    th = E.lift(args[3])
    f = lambda g, x: E.mul(g, E.sigmoid(E.mul(b, x)))
    if th.args < 8:
        f0 = f
        f = lambda g, x: E.where(E.lt(th, E.mul(b, x)), g, f0(g, x))
    return out(_map2(f, V(args[0]), V(args[1])), m)


@handler("aten::log_sigmoid_forward")
def _lsf(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map1(E.logsigmoid, V(args[0])), m[0]), from_vals(np.empty((0,), dtype=object), m[0].dtype)


@handler("aten::log_sigmoid_backward")
def _lsb(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map2(lambda g, x: E.mul(g, E.sigmoid(E.neg(x))), V(args[0]), V(args[1])), m)


@handler("aten::elu")
def _elu(func, args, kwargs):
    m = meta(func, args, kwargs)
    al = E.lift(A(args, kwargs, 1, "alpha", 1))
    sc = E.lift(A(args, kwargs, 2, "scale", 1))
    isc = E.lift(A(args, kwargs, 3, "input_scale", 1))
    f = lambda x: E.mul(sc, E.where(E.lt(ZERO, x), x, E.mul(al, E.sub(E.exp(E.mul(x, isc)), ONE))))
    return out(_map1(f, V(args[0])), m)


@handler("aten::elu_backward")
def _elu_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    g, al, sc, isc, is_result, x = args
    al, sc, isc = E.lift(al), E.lift(sc), E.lift(isc)
    if is_result:
        f = lambda g, x: E.mul(g, E.where(E.le(x, ZERO), E.mul(isc, E.add(x, E.mul(al, sc))), sc))
    else:
        f = lambda g, x: E.mul(g, E.where(E.le(x, ZERO), E.mul(isc, E.mul(al, E.mul(sc, E.exp(E.mul(x, isc))))), sc))
    return out(_map2(f, V(g), V(x)), m)


@handler("aten::leaky_relu")
def _lrelu(func, args, kwargs):
    m = meta(func, args, kwargs)
    s = E.lift(A(args, kwargs, 1, "negative_slope", 0.01))
    return out(_map1(lambda x: E.where(E.lt(ZERO, x), x, E.mul(s, x)), V(args[0])), m)


@handler("aten::threshold_backward")
def _thr_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    th = E.lift(args[2])
    return out(_map2(lambda g, x: E.where(E.le(x, th), ZERO, g), V(args[0]), V(args[1])), m)


@handler("aten::threshold")
def _thr(func, args, kwargs):
    m = meta(func, args, kwargs)
    th, v = E.lift(args[1]), E.lift(args[2])
    return out(_map1(lambda x: E.where(E.le(x, th), v, x), V(args[0])), m)


@handler("aten::gelu")
def _gelu(func, args, kwargs):
    m = meta(func, args, kwargs)
    if kwargs.get("approximate", "none") != "none":
        c, k3 = const(Fraction(math.sqrt(2 / math.pi))), const(Fraction(0.044715))
        return out(_map1(lambda x: E.mul(E.mul(const(HALF), x), E.add(ONE, E.tanh(E.mul(c, E.add(x, E.mul(k3, E.powi(x, 3))))))), V(args[0])), m)
    k = const(Fraction(1 / math.sqrt(2)))
    return out(_map1(lambda x: E.mul(E.mul(const(HALF), x), E.add(ONE, E.erf(E.mul(x, k)))), V(args[0])), m)


# ------------------------------------------------------------------ casts / copies
@handler("aten::_to_copy")
def _to_copy(func, args, kwargs):
    dt = kwargs.get("dtype") or args[0].dtype
    dev = kwargs.get("device")
    t = args[0]
    m = T.to_meta(t).to(dt) if dt != t.dtype else T.to_meta(t).clone()
    return out(vals(t), m)


@handler("aten::copy")
def _copy(func, args, kwargs):
    m = T.to_meta(args[0])
    return out(np.broadcast_to(vals(args[1]), tuple(args[0].shape)), m)


@handler("aten::copy_")
def _copy_(func, args, kwargs):
    v = vals(args[1])
    try:
        np.broadcast_to(v, tuple(args[0].shape))
    except ValueError:
        raise _MetaError(legit(RuntimeError(f"The expanded size of the tensor {tuple(args[0].shape)} must match {v.shape}")))
    write(args[0], v)
    return args[0]


@handler("aten::fill_")
def _fill_(func, args, kwargs):
    write(args[0], V(args[1]))
    return args[0]


@handler("aten::zero_")
def _zero_(func, args, kwargs):
    write(args[0], _np0(ZERO))
    return args[0]


@handler("aten::fill", "aten::full_like")
def _fill(func, args, kwargs):
    m = meta(func, args, kwargs) if not isinstance(args[1], torch.Tensor) else T.to_meta(args[0]).clone()
    return out(V(args[1]), m)


@handler("aten::_local_scalar_dense", "aten::item")
def _local_scalar(func, args, kwargs):
    t = args[0]
    v = T.sym_item(t)
    if isinstance(v, T.SymScalar):
        raise EngineError("a symbolic float is needed as a python number inside torch")
    return v


@handler("aten::is_nonzero")
def _isnz(func, args, kwargs):
    return SymTensor.__bool__(args[0])


@handler("aten::equal")
def _equal(func, args, kwargs):
    a, b = args
    if tuple(a.shape) != tuple(b.shape):
        return False
    c = X.and_(*[E.eq(x, y) for x, y in zip(vals(a).reshape(-1), vals(b).reshape(-1))])
    return engine.fork(c)


@handler("aten::_is_all_true", "aten::_is_any_true")
def _all_true(func, args, kwargs):
    bs = [E.to_bool(x) for x in vals(args[0]).reshape(-1)]
    c = X.and_(*bs) if "all" in func._schema.name else X.or_(*bs)
    return out(np.array(c, dtype=object), meta(func, args, kwargs))


@handler("aten::allclose")
def _allclose(func, args, kwargs):
    g = lambda i, n, d: args[i] if len(args) > i else kwargs.get(n, d)
    rtol, atol, nan = g(2, "rtol", 1e-5), g(3, "atol", 1e-8), g(4, "equal_nan", False)
    a, b = np.broadcast_arrays(V(args[0]), V(args[1]))
    cs = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        c = X.or_(E.eq(x, y), E.le(E.abs_(E.sub(x, y)), E.add(E.lift(atol), E.mul(E.lift(rtol), E.abs_(y)))))
        if nan:
            c = X.or_(c, X.and_(E.isnan(x), E.isnan(y)))
        cs.append(c)
    return engine.fork(X.and_(*cs))


@handler("aten::sym_size", "aten::sym_numel", "aten::sym_stride")
def _symsize(func, args, kwargs):
    return func(T.to_meta(args[0]), *args[1:])


# ------------------------------------------------------------------ factories
_FACT = ("zeros", "ones", "full", "empty", "arange", "linspace", "logspace", "eye", "scalar_tensor", "zeros_like", "ones_like", "empty_like",
         "new_zeros", "new_ones", "new_full", "new_empty", "empty_strided", "new_empty_strided", "tril_indices",
         "triu_indices", "empty_permuted", "hann_window")


def _factory(func, args, kwargs):
    n = func._schema.name[6:]
    kw = {k: v for k, v in kwargs.items() if k not in ("device", "pin_memory", "layout")}
    if n in ("zeros_like", "ones_like", "empty_like", "new_zeros", "new_ones", "new_full", "new_empty", "new_empty_strided"):
        m = meta(func, args, {k: v for k, v in kw.items()})
        fill = {"ones_like": ONE, "new_ones": ONE}.get(n, ZERO)
        if n == "new_full":
            fill = E.lift(args[2])
        return out(_np0(fill), m)
    if n in ("linspace", "logspace") and any(isinstance(a, torch.Tensor) for a in args[:2]):
        if n == "logspace":
            raise EngineError("logspace on tensors")
        a, b, k = V(args[0])[()], V(args[1])[()], int(args[2])
        dt = kw.get("dtype") or torch.get_default_dtype()
        v = np.empty((k,), dtype=object)
        for i in range(k):
            fr = Fraction(i, k - 1) if k > 1 else Fraction(0)
            v[i] = E.add(E.mul(a, const(1 - fr)), E.mul(b, const(fr)))
        return from_vals(v, dt)
    if n == "linspace":
        a, b, k = Fraction(args[0]), Fraction(args[1]), int(args[2])
        dt = kw.get("dtype") or torch.get_default_dtype()
        a, b = E.lift(args[0]).args, E.lift(args[1]).args
        v = np.empty((k,), dtype=object)
        for i in range(k):
            fr = Fraction(i, k - 1) if k > 1 else Fraction(0)
            v[i] = const(a * (1 - fr) + b * fr)
        return from_vals(cast_arr(v, dt), dt)
    if n == "full" or n == "scalar_tensor":
        size = args[0] if n == "full" else ()
        val = args[1] if n == "full" else args[0]
        dt = kw.get("dtype")
        if dt is None:
            dt = torch.bool if isinstance(val, bool) else torch.int64 if isinstance(val, int) and n == "full" else torch.get_default_dtype()
        v = np.empty(tuple(size), dtype=object)
        v[...] = T.cast_elem(E.lift(val), dt)
        return from_vals(v, dt)
    t = func(*args, **kw)
    if t.numel() > T.MAX_LIFT:
        return t
    if n.startswith("empty"):
        t = torch.zeros(t.shape, dtype=t.dtype)
    return sym_copy(t)


for _n in _FACT:
    HANDLERS["aten::" + _n] = _factory


# randomness: arbitrary values within the distribution's support
def _fresh_arr(shape, tag, **kw):
    v = np.empty(tuple(shape), dtype=object)
    f = v.reshape(-1)
    for i in range(f.shape[0]):
        f[i] = engine.fresh_var(tag, **kw)
    return v


@handler("aten::randn", "aten::rand", "aten::randn_like", "aten::rand_like", "aten::normal_functional", "aten::uniform", "aten::normal",
         "aten::exponential")
def _rand(func, args, kwargs):
    n = func._schema.name[6:]
    if n.endswith("_like") or n in ("uniform", "normal_functional", "exponential"):
        shape, dt = tuple(args[0].shape), kwargs.get("dtype") or args[0].dtype
    elif n == "normal":
        ov = func._schema.overload_name
        mean, std = args[0], args[1]
        ms = V(mean) if not isinstance(mean, (int, float)) else _np0(E.lift(mean))
        ss = V(std) if not isinstance(std, (int, float)) else _np0(E.lift(std))
        shape = np.broadcast_shapes(ms.shape, ss.shape) if len(args) < 3 or not isinstance(args[2], (list, tuple)) else tuple(args[2])
        z = _fresh_arr(shape, "randn")
        return from_vals(_map3(lambda a, b, c: E.add(a, E.mul(b, c)), np.broadcast_to(ms, shape), np.broadcast_to(ss, shape), z), torch.get_default_dtype())
    else:
        shape, dt = tuple(args[0]), kwargs.get("dtype") or torch.get_default_dtype()
    if n.startswith("rand") and not n.startswith("randn"):
        return from_vals(_fresh_arr(shape, "rand", lo=0, hi=1, hi_open=True), dt)
    if n == "uniform":
        lo, hi = A(args, kwargs, 1, "from", 0.0), A(args, kwargs, 2, "to", 1.0)
        return from_vals(_fresh_arr(shape, "rand", lo=E.lift(lo).args, hi=E.lift(hi).args, hi_open=True), dt)
    if n == "normal_functional":
        mean, std = E.lift(A(args, kwargs, 1, "mean", 0.0)), E.lift(A(args, kwargs, 2, "std", 1.0))
        return from_vals(_map1(lambda z: E.add(mean, E.mul(std, z)), _fresh_arr(shape, "randn")), dt)
    if n == "exponential":
        return from_vals(_fresh_arr(shape, "randexp", lo=0, lo_open=True), dt)
    return from_vals(_fresh_arr(shape, "randn"), dt)


@handler("aten::normal_")
def _normal_(func, args, kwargs):
    mean, std = E.lift(A(args, kwargs, 1, "mean", 0.0)), E.lift(A(args, kwargs, 2, "std", 1.0))
    write(args[0], _map1(lambda z: E.add(mean, E.mul(std, z)), _fresh_arr(args[0].shape, "randn")))
    return args[0]


@handler("aten::uniform_")
def _uniform_(func, args, kwargs):
    lo, hi = E.lift(A(args, kwargs, 1, "from", 0.0)), E.lift(A(args, kwargs, 2, "to", 1.0))
    write(args[0], _fresh_arr(args[0].shape, "rand", lo=lo.args, hi=hi.args, hi_open=True))
    return args[0]


@handler("aten::exponential_")
def _exponential_(func, args, kwargs):
    write(args[0], _fresh_arr(args[0].shape, "randexp", lo=0, lo_open=True))
    return args[0]


@handler("aten::randint")
def _randint(func, args, kwargs):
    if func._schema.overload_name.startswith("low"):
        lo, hi, size = args[0], args[1], args[2]
    else:
        lo, hi, size = 0, args[0], args[1]
    dt = kwargs.get("dtype") or torch.int64
    return from_vals(_fresh_arr(size, "randint", lo=int(lo), hi=int(hi) - 1, integer=True), dt)


@handler("aten::randperm")
def _randperm(func, args, kwargs):
    n = int(args[0])
    v = _fresh_arr((n,), "perm", lo=0, hi=max(n - 1, 0), integer=True)
    for i in range(n):
        for j in range(i):
            engine.assume(X.ne(v[i], v[j]))
    return from_vals(v, kwargs.get("dtype") or torch.int64)


@handler("aten::multinomial")
def _multinomial(func, args, kwargs):
    p, k = args[0], int(args[1])
    repl = bool(A(args, kwargs, 2, "replacement", False))
    pv = vals(p)
    rows = pv.reshape(-1, pv.shape[-1]) if pv.ndim > 1 else pv.reshape(1, -1)
    o = np.empty((rows.shape[0], k), dtype=object)
    for r in range(rows.shape[0]):
        for j in range(k):
            s = engine.fresh_var("multinomial", lo=0, hi=pv.shape[-1] - 1, integer=True)
            # contract: only categories with positive weight are drawn
            for c in range(pv.shape[-1]):
                engine.assume(X.implies(X.eq(s, const(c)), E.lt(ZERO, rows[r, c])))
            if not repl:
                for i in range(j):
                    engine.assume(X.ne(s, o[r, i]))
            o[r, j] = s
            engine.note_stub("categorical", (s, list(rows[r])))
    engine.note_stub("torch.multinomial", [[x for x in rows.reshape(-1)], k, repl])
    return from_vals(o if pv.ndim > 1 else o[0], torch.int64)


@handler("aten::bernoulli", "aten::bernoulli_")
def _bernoulli(func, args, kwargs):
    p = A(args, kwargs, 1, "p", None)
    if isinstance(p, torch.Generator) or p is None:
        p = None if "float" not in func._schema.overload_name else 0.5
    if p is None:
        pv = vals(args[0])
    elif isinstance(p, torch.Tensor):
        pv = np.broadcast_to(vals(p), tuple(args[0].shape))
    else:
        pv = np.full(tuple(args[0].shape), E.lift(p), dtype=object)
    v = _fresh_arr(args[0].shape, "bern", lo=0, hi=1, integer=True)
    for ix in np.ndindex(*v.shape):
        # contract: impossible outcomes are not drawn
        engine.assume(X.implies(X.eq(v[ix], const(1)), E.lt(ZERO, pv[ix])))
        engine.assume(X.implies(X.eq(v[ix], const(0)), E.lt(pv[ix], const(1))))
        engine.note_stub("categorical", (v[ix], [E.sub(const(1), pv[ix]), pv[ix]]))
    if func._schema.name.endswith("_"):
        write(args[0], v)
        return args[0]
    return from_vals(v, args[0].dtype)


@handler("aten::native_dropout")
def _dropout(func, args, kwargs):
    raise EngineError("dropout")


# ------------------------------------------------------------------ reductions
def _norm_dims(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(sorted(d % nd if nd else 0 for d in dim))


def reduce_(v, dims, keepdim, f):
    nd = v.ndim
    if nd == 0:
        return _np0(f([v[()]]))
    rest = [d for d in range(nd) if d not in dims]
    w = v.transpose(rest + list(dims))
    rs = tuple(v.shape[d] for d in rest)
    n = int(np.prod([v.shape[d] for d in dims])) if dims else 1
    w = w.reshape(rs + (n,))
    o = np.empty(rs, dtype=object)
    for ix in np.ndindex(*rs):
        o[ix] = f(list(w[ix]))
    if keepdim:
        o = o.reshape(tuple(1 if d in dims else v.shape[d] for d in range(nd)))
    return o


def reduction(*names, dim_i=1, keep_i=2):
    def deco(f):
        def h(func, args, kwargs):
            m = meta(func, args, kwargs)
            names_ = [a.name for a in func._schema.arguments]
            dim = kwargs.get("dim", args[names_.index("dim")] if "dim" in names_ and names_.index("dim") < len(args) else None)
            keep = kwargs.get("keepdim", args[names_.index("keepdim")] if "keepdim" in names_ and names_.index("keepdim") < len(args) else False)
            v = V(args[0])
            o = reduce_(v, _norm_dims(dim, v.ndim), keep, f)
            return out(o, m)
        for n in names:
            HANDLERS["aten::" + n] = h
        return f
    return deco


def _vprod(xs):
    r = ONE
    for x in xs:
        r = E.mul(r, x)
    return r


def _vmean(xs):
    if not xs:
        return E.NAN
    return E.mul(E.vsum(xs), const(Fraction(1, len(xs))))


def _lse(xs):
    if all(type(E.to_num(x)) is X.Expr for x in xs):
        return X.log(X.add(*[X.exp(E.to_num(x)) for x in xs]))
    return E.log(E.vsum([E.exp(x) for x in xs]))


def _vmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.maximum(r, x)
    return r


def _vmin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = E.minimum(r, x)
    return r


reduction("sum")(E.vsum)
reduction("nansum")(lambda xs: E.vsum([E.where(E.isnan(x), ZERO, x) for x in xs]))
reduction("mean")(_vmean)
reduction("prod")(_vprod)
reduction("amax")(_vmax)
reduction("amin")(_vmin)
reduction("any")(lambda xs: X.or_(*[E.to_bool(x) for x in xs]))
reduction("all")(lambda xs: X.and_(*[E.to_bool(x) for x in xs]))
reduction("logsumexp")(_lse)
reduction("count_nonzero")(lambda xs: E.vsum([E.to_num(E.to_bool(x)) for x in xs]))


@handler("aten::linalg_vector_norm", "aten::norm")
def _vnorm(func, args, kwargs):
    m = meta(func, args, kwargs)
    nm = [a.name for a in func._schema.arguments]
    ordv = kwargs.get("ord", kwargs.get("p", args[1] if len(args) > 1 else 2))
    dim = kwargs.get("dim", args[nm.index("dim")] if "dim" in nm and nm.index("dim") < len(args) else None)
    keep = kwargs.get("keepdim", args[nm.index("keepdim")] if "keepdim" in nm and nm.index("keepdim") < len(args) else False)
    if ordv is None:
        ordv = 2
    v = V(args[0])
    if ordv == 2:
        f = lambda xs: E.sqrt(E.vsum([E.mul(x, x) for x in xs]))
    elif ordv == 1:
        f = lambda xs: E.vsum([E.abs_(x) for x in xs])
    elif ordv == float("inf"):
        f = lambda xs: _vmax([E.abs_(x) for x in xs])
    else:
        raise EngineError("norm order")
    return out(reduce_(v, _norm_dims(dim, v.ndim), keep, f), m)


@handler("aten::var", "aten::std", "aten::var_mean", "aten::std_mean")
def _var(func, args, kwargs):
    m = meta(func, args, kwargs)
    nm = [a.name for a in func._schema.arguments]
    def g(name, d):
        return kwargs.get(name, args[nm.index(name)] if name in nm and nm.index(name) < len(args) else d)
    dim, keep = g("dim", None), g("keepdim", False)
    corr = g("correction", None)
    if corr is None:
        corr = 1 if g("unbiased", True) else 0
    corr = Fraction(corr)
    v = V(args[0])
    dims = _norm_dims(dim, v.ndim)

    def var(xs):
        n = len(xs)
        if n - corr <= 0:
            return E.NAN
        mu = _vmean(xs)
        return E.mul(E.vsum([E.mul(E.sub(x, mu), E.sub(x, mu)) for x in xs]), const(1 / (n - corr)))
    name = func._schema.name
    o = reduce_(v, dims, keep, var)
    if "std" in name:
        o = _map1(E.sqrt, o)
    if name.endswith("_mean"):
        mu = reduce_(v, dims, keep, _vmean)
        return out(o, m[0]), out(mu, m[1])
    return out(o, m)


def _argbest(xs, better):
    """index of first best element (NaN wins like torch)"""
    bi, bv = const(0), xs[0]
    for i in range(1, len(xs)):
        c = better(xs[i], bv)
        bi = X.ite(c, const(i), bi)
        bv = E.where(c, xs[i], bv)
    return bi, bv


def _gt(a, b):
    # a strictly better than current best b (max); NaN propagates
    return X.or_(E.lt(b, a), X.and_(E.isnan(a), X.not_(E.isnan(b))))


def _lt(a, b):
    return X.or_(E.lt(a, b), X.and_(E.isnan(a), X.not_(E.isnan(b))))


def _maxmin(better, reducer):
    def h(func, args, kwargs):
        if func._schema.overload_name == "other":
            m = meta(func, args, kwargs)
            f = E.maximum if reducer is _vmax else E.minimum
            return out(_map2(f, V(args[0]), V(args[1])), m)
        m = meta(func, args, kwargs)
        v = V(args[0])
        if len(args) == 1 and "dim" not in kwargs:
            return out(_np0(reducer(list(v.reshape(-1)))), m)
        dim = A(args, kwargs, 1, "dim")
        keep = A(args, kwargs, 2, "keepdim", False)
        dims = _norm_dims(dim, v.ndim)
        ix = reduce_(v, dims, keep, lambda xs: _argbest(xs, better)[0])
        bv = reduce_(v, dims, keep, lambda xs: _argbest(xs, better)[1])
        return torch.return_types.max((out(bv, m[0]), out(ix, m[1]))) if reducer is _vmax else \
            torch.return_types.min((out(bv, m[0]), out(ix, m[1])))
    return h


HANDLERS["aten::max"] = _maxmin(_gt, _vmax)
HANDLERS["aten::min"] = _maxmin(_lt, _vmin)


@handler("aten::aminmax")
def _aminmax(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    dim, keep = kwargs.get("dim"), kwargs.get("keepdim", False)
    dims = _norm_dims(dim, v.ndim)
    return torch.return_types.aminmax((out(reduce_(v, dims, keep, _vmin), m[0]), out(reduce_(v, dims, keep, _vmax), m[1])))


@handler("aten::argmax", "aten::argmin")
def _argmax(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    dim = A(args, kwargs, 1, "dim")
    keep = A(args, kwargs, 2, "keepdim", False)
    better = _gt if "max" in func._schema.name else _lt
    if dim is None:
        o = _np0(_argbest(list(v.reshape(-1)), better)[0])
        return out(o.reshape((1,) * v.ndim) if keep else o, m)
    return out(reduce_(v, _norm_dims(dim, v.ndim), keep, lambda xs: _argbest(xs, better)[0]), m)


def _scan(v, dim, f):
    if v.ndim == 0:
        return v
    w = np.moveaxis(v, dim, -1)
    o = np.empty(w.shape, dtype=object)
    for ix in np.ndindex(*w.shape[:-1]):
        acc = None
        for i in range(w.shape[-1]):
            acc = w[ix + (i,)] if acc is None else f(acc, w[ix + (i,)])
            o[ix + (i,)] = acc
    return np.moveaxis(o, -1, dim)


def scan(name, f):
    def h(func, args, kwargs):
        m = meta(func, args, kwargs)
        return out(_scan(_map1(E.to_num, V(args[0])), A(args, kwargs, 1, "dim"), f), m)
    HANDLERS["aten::" + name] = h


scan("cumsum", E.add)
scan("cumprod", E.mul)
scan("logcumsumexp", lambda a, b: _lse([a, b]))


def _cumext(better):
    def h(func, args, kwargs):
        m = meta(func, args, kwargs)
        v = V(args[0])
        dim = A(args, kwargs, 1, "dim")
        w = np.moveaxis(v, dim, -1) if v.ndim else v.reshape(1)
        o = np.empty(w.shape, dtype=object)
        oi = np.empty(w.shape, dtype=object)
        for ix in np.ndindex(*w.shape[:-1]):
            bv, bi = w[ix + (0,)], const(0)
            o[ix + (0,)], oi[ix + (0,)] = bv, bi
            for i in range(1, w.shape[-1]):
                x = w[ix + (i,)]
                c = X.not_(E.lt(x, bv)) if better is _gt else X.not_(E.lt(bv, x))
                bv, bi = E.where(c, x, bv), X.ite(c, const(i), bi)
                o[ix + (i,)], oi[ix + (i,)] = bv, bi
        if v.ndim:
            o, oi = np.moveaxis(o, -1, dim), np.moveaxis(oi, -1, dim)
        return out(o, m[0]), out(oi, m[1])
    return h


HANDLERS["aten::cummax"] = _cumext(_gt)
HANDLERS["aten::cummin"] = _cumext(_lt)


def _softmax_cols(xs, log):
    if all(type(E.to_num(x)) is X.Expr for x in xs):
        xs = [E.to_num(x) for x in xs]
        if log:
            l = X.log(X.add(*[X.exp(x) for x in xs]))
            return [X.sub(x, l) for x in xs]
        return [X.div(ONE, X.add(*[X.exp(X.sub(y, x)) for y in xs])) for x in xs]
    # -inf entries (possibly conditional): weight 0
    finite = [X.not_(x.ninf) if type(x) is E.Ext else TRUE for x in xs]
    bad = X.or_(*[X.or_(x.nan, x.pinf) for x in xs if type(x) is E.Ext])
    none = X.not_(X.or_(*finite))
    bad = X.or_(bad, none)
    vs = [x.v if type(x) is E.Ext else E.to_num(x) for x in xs]
    res = []
    if log:
        s = X.add(*[X.ite(f, X.exp(v), ZERO) for f, v in zip(finite, vs)])
        s = X.ite(none, ONE, s)
        l = X.log(s)
        for f, v in zip(finite, vs):
            res.append(E.where(bad, E.NAN, E.where(f, X.sub(v, l), E.NINF)))
        return res
    for f, v in zip(finite, vs):
        d = X.add(*[(X.ite(g, X.exp(X.sub(w, v)), ZERO) if not (w is v and g is f) else ONE) for g, w in zip(finite, vs)])
        r = E.where(f, X.div(ONE, d), ZERO)
        res.append(E.where(bad, E.NAN, r))
    return res


@handler("aten::_softmax", "aten::_log_softmax", "aten::_safe_softmax")
def _softmax(func, args, kwargs):
    m = meta(func, args, kwargs)
    log = "log" in func._schema.name
    v = V(args[0])
    dim = args[1]
    if v.ndim == 0:
        return out(_np0(ZERO if log else ONE), m)
    w = np.moveaxis(v, dim, -1)
    o = np.empty(w.shape, dtype=object)
    for ix in np.ndindex(*w.shape[:-1]):
        col = _softmax_cols(list(w[ix]), log)
        for i, x in enumerate(col):
            o[ix + (i,)] = x
    return out(np.moveaxis(o, -1, dim), m)


@handler("aten::_softmax_backward_data", "aten::_log_softmax_backward_data")
def _softmax_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    g, y, dim = V(args[0]), V(args[1]), args[2]
    log = "log" in func._schema.name
    gw, yw = np.moveaxis(g, dim, -1), np.moveaxis(y, dim, -1)
    o = np.empty(gw.shape, dtype=object)
    for ix in np.ndindex(*gw.shape[:-1]):
        gs, ys = list(gw[ix]), list(yw[ix])
        if log:
            s = E.vsum(gs)
            for i in range(len(gs)):
                o[ix + (i,)] = E.sub(gs[i], E.mul(E.exp(ys[i]), s))
        else:
            s = E.vsum([E.mul(a, b) for a, b in zip(gs, ys)])
            for i in range(len(gs)):
                o[ix + (i,)] = E.mul(ys[i], E.sub(gs[i], s))
    return out(np.moveaxis(o, -1, dim), m)


# ------------------------------------------------------------------ losses
def _check_index(i, n, what="index"):
    """fork on out-of-range symbolic indices"""
    if i.op == "c":
        if not 0 <= i.args < n:
            raise _MetaError(legit(IndexError(f"{what} {i.args} is out of bounds for dimension with size {n}")))
        return
    ok = X.and_(X.le(ZERO, i), X.lt(i, const(n)))
    if not engine.fork(ok):
        raise _MetaError(legit(IndexError(f"{what} out of bounds for dimension with size {n}")))


def pick(row, i):
    """row[i] for a symbolic index i already known to be in range"""
    i = engine.simp_num(i)
    if i.op == "c":
        return row[int(i.args)]
    r = row[-1]
    for k in range(len(row) - 2, -1, -1):
        r = E.where(X.eq(i, const(k)), row[k], r)
    return r


@handler("aten::nll_loss_forward", "aten::nll_loss2d_forward")
def _nll(func, args, kwargs):
    x, target, weight, reduction, ignore = args[:5]
    xv, tv = V(x), V(target)
    wv = [ONE] * xv.shape[1 if xv.ndim > 1 else 0] if weight is None else list(V(weight))
    dt = x.dtype
    if func._schema.name.endswith("2d_forward"):
        xv = np.moveaxis(xv, 1, -1)
    C = xv.shape[-1]
    if xv.ndim == 1:
        xv, tv = xv.reshape(1, -1), tv.reshape(1)
        scalar = True
    else:
        scalar = False
    if tuple(tv.shape) != tuple(xv.shape[:-1]):
        raise _MetaError(legit(ValueError(f"Expected input batch_size ({xv.shape[0]}) to match target batch_size ({tv.shape[0]}).")))
    losses = np.empty(tv.shape, dtype=object)
    wts = []
    for ix in np.ndindex(*tv.shape):
        t = tv[ix]
        ign = X.eq(t, const(ignore))
        if ign is TRUE:
            losses[ix] = ZERO
            wts.append(ZERO)
            continue
        if ign is not FALSE and engine.fork(ign):
            losses[ix] = ZERO
            wts.append(ZERO)
            continue
        _check_index(t, C, "Target")
        w = pick(wv, t)
        losses[ix] = E.mul(w, E.neg(pick(list(xv[ix]), t)))
        wts.append(w)
    tw = E.vsum(wts) if wts else ZERO
    if reduction == 0:
        o = losses.reshape(()) if scalar else losses
        return from_vals(o, dt), from_vals(_np0(ZERO), dt)
    s = E.vsum(list(losses.reshape(-1)))
    if reduction == 1:
        s = E.div(s, tw)
    return from_vals(_np0(s), dt), from_vals(_np0(tw), dt)


@handler("aten::nll_loss_backward", "aten::nll_loss2d_backward")
def _nll_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    g, x, target, weight, reduction, ignore, tw = args[:7]
    xv, tv, gv = V(x), V(target), V(g)
    two = func._schema.name.endswith("2d_backward")
    if two:
        xv = np.moveaxis(xv, 1, -1)
    sc = xv.ndim == 1
    if sc:
        xv, tv = xv.reshape(1, -1), tv.reshape(1)
    o = np.empty(xv.shape, dtype=object)
    twv = V(tw)[()]
    wv = [ONE] * xv.shape[-1] if weight is None else list(V(weight))
    for ix in np.ndindex(*tv.shape):
        t = tv[ix]
        gg = gv[ix] if reduction == 0 and gv.ndim else gv.reshape(-1)[0]
        if reduction == 1:
            gg = E.div(gg, twv)
        valid = X.ne(t, const(ignore))
        for c in range(xv.shape[-1]):
            o[ix + (c,)] = E.where(X.and_(valid, X.eq(t, const(c))), E.neg(E.mul(wv[c], gg)), ZERO)
    if sc:
        o = o[0]
    if two:
        o = np.moveaxis(o, -1, 1)
    return out(o, m)


def _red(v, reduction, dt):
    if reduction == 0:
        return None
    s = E.vsum(list(v.reshape(-1)))
    if reduction == 1:
        s = E.mul(s, const(Fraction(1, v.size)))
    return s


@handler("aten::binary_cross_entropy", "aten::binary_cross_entropy_with_logits", "aten::mse_loss", "aten::smooth_l1_loss")
def _bce(func, args, kwargs):
    m = meta(func, args, kwargs)
    n = func._schema.name[6:]
    x, y = V(args[0]), V(args[1])
    nm = [a.name for a in func._schema.arguments]
    def g(name, d):
        return kwargs.get(name, args[nm.index(name)] if name in nm and nm.index(name) < len(args) else d)
    weight, red, pw = g("weight", None), g("reduction", 1), g("pos_weight", None)
    if n == "binary_cross_entropy":
        M100 = const(-100)
        cl = lambda l: E.maximum(l, M100)
        if all(type(a) is X.Expr and X.is_pos_deep(a) and X.is_pos_deep(X.sub(ONE, a)) for a in x.reshape(-1)):
            cl = lambda l: l          # log clamp at -100 is unreachable up to exp(-100)
        f = lambda p, t: E.neg(E.add(E.mul(t, cl(E.log(p))), E.mul(E.sub(ONE, t), cl(E.log(E.sub(ONE, p))))))
    elif n == "mse_loss":
        f = lambda a, b: E.mul(E.sub(a, b), E.sub(a, b))
    elif n == "smooth_l1_loss":
        beta = E.lift(g("beta", 1.0))
        def f(a, b):
            d = E.abs_(E.sub(a, b))
            if beta is ZERO:
                return d
            return E.where(E.lt(d, beta), E.div(E.mul(const(HALF), E.mul(d, d)), beta), E.sub(d, E.mul(const(HALF), beta)))
    else:
        f = lambda z, t: E.sub(E.softplus(z), E.mul(t, z))
    if n == "binary_cross_entropy_with_logits" and pw is not None:
        o = _map3(lambda z, t, p: E.add(E.mul(E.mul(p, t), E.softplus(E.neg(z))), E.mul(E.sub(ONE, t), E.softplus(z))), x, y,
                  np.broadcast_to(V(pw), x.shape))
    else:
        o = _map2(f, x, y)
    if weight is not None:
        o = _map2(E.mul, o, V(weight))
    s = _red(o, red, m.dtype)
    return out(o if s is None else _np0(s), m)


@handler("aten::mse_loss_backward")
def _mse_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    g, x, y, red = V(args[0]), V(args[1]), V(args[2]), args[3]
    n = x.size if red == 1 else 1
    return out(_map3(lambda g, a, b: E.mul(E.mul(g, const(Fraction(2, n))), E.sub(a, b)), np.broadcast_to(g, x.shape), x, y), m)


@handler("aten::binary_cross_entropy_backward")
def _bce_bw(func, args, kwargs):
    m = meta(func, args, kwargs)
    g, x, y = V(args[0]), V(args[1]), V(args[2])
    red = A(args, kwargs, 4, "reduction", 1)
    n = x.size if red == 1 else 1
    f = lambda g, p, t: E.mul(E.mul(g, const(Fraction(1, n))), E.div(E.sub(p, t), E.mul(p, E.sub(ONE, p))))
    return out(_map3(f, np.broadcast_to(g, x.shape), x, y), m)


# ------------------------------------------------------------------ linear algebra
def _dot(a, b):
    return E.vsum([E.mul(x, y) for x, y in zip(a, b)]) if len(a) else ZERO


def _mm(a, b):
    o = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        r = list(a[i])
        for j in range(b.shape[1]):
            o[i, j] = _dot(r, list(b[:, j]))
    return o


@handler("aten::mm")
def _mmh(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_mm(V(args[0]), V(args[1])), m)


@handler("aten::bmm")
def _bmm(func, args, kwargs):
    m = meta(func, args, kwargs)
    a, b = V(args[0]), V(args[1])
    o = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        o[i] = _mm(a[i], b[i])
    return out(o, m)


@handler("aten::mv")
def _mv(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_mm(V(args[0]), V(args[1]).reshape(-1, 1))[:, 0], m)


@handler("aten::dot", "aten::vdot")
def _doth(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_np0(_dot(list(V(args[0])), list(V(args[1])))), m)


@handler("aten::addmm", "aten::addmv", "aten::baddbmm", "aten::addbmm")
def _addmm(func, args, kwargs):
    m = meta(func, args, kwargs)
    n = func._schema.name
    beta, alpha = E.lift(kwargs.get("beta", 1)), E.lift(kwargs.get("alpha", 1))
    a, b = V(args[1]), V(args[2])
    if n.endswith("addmv"):
        p = _mm(a, b.reshape(-1, 1))[:, 0]
    elif n.endswith("baddbmm"):
        p = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
        for i in range(a.shape[0]):
            p[i] = _mm(a[i], b[i])
    elif n.endswith("addmm"):
        p = _mm(a, b)
    else:
        raise EngineError(n)
    o = _map2(lambda x, y: E.add(E.mul(beta, x), E.mul(alpha, y)), V(args[0]), p)
    return out(o, m)


@handler("aten::linear")
def _linear(func, args, kwargs):
    m = meta(func, args, kwargs)
    x, w = V(args[0]), V(args[1])
    bias = A(args, kwargs, 2, "bias")
    sh = x.shape
    o = _mm(x.reshape(-1, sh[-1]), w.T if w.ndim == 2 else w.reshape(-1, 1))
    if bias is not None:
        o = _map2(E.add, o, V(bias))
    return out(o.reshape(tuple(m.shape)), m)


@handler("aten::outer", "aten::ger")
def _outer(func, args, kwargs):
    m = meta(func, args, kwargs)
    return out(_map2(E.mul, V(args[0]).reshape(-1, 1), V(args[1]).reshape(1, -1)), m)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return a[0, 0]
    r = ZERO
    for j in range(n):
        if a[0, j] is ZERO:
            continue
        minor = np.delete(np.delete(a, 0, 0), j, 1)
        t = E.mul(a[0, j], _det(minor))
        r = E.add(r, t) if j % 2 == 0 else E.sub(r, t)
    return r


def _adj(a):
    n = a.shape[0]
    o = np.empty((n, n), dtype=object)
    if n == 1:
        o[0, 0] = ONE
        return o
    for i in range(n):
        for j in range(n):
            c = _det(np.delete(np.delete(a, i, 0), j, 1))
            o[j, i] = c if (i + j) % 2 == 0 else E.neg(c)
    return o


def _inv(a):
    d = _det(a)
    if a.shape[0] > 4:
        raise EngineError("symbolic matrix larger than 4x4")
    # diagonal matrices invert elementwise
    n = a.shape[0]
    if all(a[i, j] is ZERO for i in range(n) for j in range(n) if i != j):
        o = np.full((n, n), ZERO, dtype=object)
        for i in range(n):
            o[i, i] = E.recip(a[i, i])
        return o
    if type(d) is X.Expr and d is ZERO:
        raise _MetaError(legit(torch.linalg.LinAlgError("The solver failed because the input matrix is singular.")))
    if type(d) is X.Expr and not X.is_nonzero(d):
        if engine.fork(X.eq(d, ZERO)):
            raise _MetaError(legit(torch.linalg.LinAlgError("The solver failed because the input matrix is singular.")))
        adj = _adj(a)
        return _map1(lambda x: X.div(x, d) if type(x) is X.Expr else E.div(x, d), adj)
    return _map1(lambda x: E.div(x, d), _adj(a))


def _batched(v, core, f):
    """apply f to trailing `core`-dim blocks"""
    bs = v.shape[:v.ndim - core]
    res = {}
    for ix in np.ndindex(*bs):
        res[ix] = f(v[ix])
    first = next(iter(res.values())) if res else None
    if first is None:
        return np.empty(bs + v.shape[-core:], dtype=object)
    sh = first.shape if isinstance(first, np.ndarray) else ()
    o = np.empty(bs + sh, dtype=object)
    for ix, r in res.items():
        o[ix] = r
    return o


def _solve(a, b):
    inv = _inv(a)
    return _mm(inv, b)


@handler("aten::linalg_inv_ex", "aten::inverse", "aten::linalg_inv")
def _invh(func, args, kwargs):
    m = meta(func, args, kwargs)
    o = _batched(V(args[0]), 2, _inv)
    if isinstance(m, torch.Tensor):
        return out(o, m)
    return torch.return_types.linalg_inv_ex((out(o, m[0]), out(_np0(ZERO), m[1])))


@handler("aten::_linalg_solve_ex")
def _solveh(func, args, kwargs):
    m = meta(func, args, kwargs)
    a, b = V(args[0]), V(args[1])
    left = kwargs.get("left", True)
    right = not left and b.ndim == a.ndim
    if right:
        a, b = np.swapaxes(a, -1, -2), np.swapaxes(b, -1, -2)
    vec = b.ndim == a.ndim - 1 and (a.ndim == 1 + b.ndim) and b.shape == a.shape[:-1] and not (b.ndim >= 2 and b.shape[-2] == a.shape[-1] and b.ndim == a.ndim)
    if vec:
        b = b[..., None]
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a2 = np.broadcast_to(a, bs + a.shape[-2:])
    b2 = np.broadcast_to(b, bs + b.shape[-2:])
    o = np.empty(bs + (a.shape[-1], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*bs):
        o[ix] = _solve(a2[ix], b2[ix])
    if vec:
        o = o[..., 0]
    if right:
        o, a2 = np.swapaxes(o, -1, -2), np.swapaxes(a2, -1, -2)
    # LU outputs are only used by autograd of solve: keep A itself with identity pivots is unsound, so poison
    res = [out(o, m[0])]
    for extra in m[1:]:
        z = np.empty(tuple(extra.shape), dtype=object)
        z[...] = ZERO
        res.append(out(z, extra))
    # stash A in LU slot: linalg_lu_solve below understands it
    lu = res[1]
    if right:
        a2 = np.full(lu.shape, E.NAN, dtype=object)      # the gradient of x A = b is not interpreted
    write(lu, a2 if lu.shape == a2.shape else a)
    lu._st_is_A = True
    return tuple(res)


@handler("aten::linalg_lu_solve")
def _lusolve(func, args, kwargs):
    m = meta(func, args, kwargs)
    a, b = V(args[0]), V(args[2])
    if kwargs.get("adjoint", False):
        a = np.swapaxes(a, -1, -2)
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a2 = np.broadcast_to(a, bs + a.shape[-2:])
    b2 = np.broadcast_to(b, bs + b.shape[-2:])
    o = np.empty(bs + b.shape[-2:], dtype=object)
    for ix in np.ndindex(*bs):
        o[ix] = _solve(a2[ix], b2[ix])
    return out(o, m)


@handler("aten::linalg_solve_triangular", "aten::triangular_solve")
def _trisolve(func, args, kwargs):
    m = meta(func, args, kwargs)
    if func._schema.name == "aten::triangular_solve":
        raise EngineError("triangular_solve")
    a, b = V(args[0]), V(args[1])
    upper, left = kwargs["upper"], kwargs.get("left", True)
    unit = kwargs.get("unitriangular", False)
    if not left:
        raise EngineError("solve_triangular left=False")
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a2 = np.broadcast_to(a, bs + a.shape[-2:])
    b2 = np.broadcast_to(b, bs + b.shape[-2:])
    n = a.shape[-1]
    o = np.empty(bs + b.shape[-2:], dtype=object)
    for ix in np.ndindex(*bs):
        for c in range(b.shape[-1]):
            xs = [None] * n
            rng = range(n - 1, -1, -1) if upper else range(n)
            for i in rng:
                s = b2[ix][i, c]
                js = range(i + 1, n) if upper else range(i)
                for j in js:
                    s = E.sub(s, E.mul(a2[ix][i, j], xs[j]))
                xs[i] = s if unit else E.div(s, a2[ix][i, i])
            for i in range(n):
                o[ix + (i, c)] = xs[i]
    return out(o, m)


@handler("aten::linalg_cholesky_ex", "aten::cholesky", "aten::linalg_cholesky")
def _chol(func, args, kwargs):
    m = meta(func, args, kwargs)
    upper = kwargs.get("upper", args[1] if len(args) > 1 else False)
    def f(a):
        n = a.shape[0]
        if upper:
            a = a.T
        L = np.full((n, n), ZERO, dtype=object)
        for i in range(n):
            for j in range(i + 1):
                s = a[i, j]
                for k in range(j):
                    s = E.sub(s, E.mul(L[i, k], L[j, k]))
                if i == j:
                    if type(s) is X.Expr and not X.is_pos_deep(s):
                        if not engine.fork(X.lt(ZERO, s)):
                            raise _MetaError(legit(torch.linalg.LinAlgError("cholesky: input is not positive-definite")))
                        L[i, i] = X.sqrt(s)
                    else:
                        L[i, i] = E.sqrt(s)
                else:
                    L[i, j] = E.div(s, L[j, j])
        return L.T if upper else L
    o = _batched(V(args[0]), 2, f)
    if isinstance(m, torch.Tensor):
        return out(o, m)
    return torch.return_types.linalg_cholesky_ex((out(o, m[0]), out(_np0(ZERO), m[1])))


def _dets(v):
    o = np.empty(v.shape[:-2], dtype=object)
    for ix in np.ndindex(*o.shape):
        o[ix] = _det(v[ix])
    return o


@handler("aten::cholesky_inverse", "aten::cholesky_solve")
def _chol_use(func, args, kwargs):
    m = meta(func, args, kwargs)
    inverse = func._schema.name.endswith("inverse")
    L = V(args[0] if inverse else args[1])
    if A(args, kwargs, 1 if inverse else 2, "upper", False):
        L = np.swapaxes(L, -1, -2)
    if L.ndim != 2:
        raise EngineError("batched cholesky_solve")
    L = L.copy()
    for i, j in np.ndindex(*L.shape):
        if j > i:
            L[i, j] = ZERO
    inv = _inv(_mm(L, L.T))
    return out(inv if inverse else _mm(inv, V(args[0])), m)


@handler("aten::linalg_pinv")
def _pinv(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    if v.ndim != 2:
        raise EngineError("batched pinv")
    # contract: full rank (the pseudoinverse of a rank-deficient matrix depends on the cutoff)
    n, k = v.shape
    g = _mm(v.T, v) if n >= k else _mm(v, v.T)
    engine.assume(X.not_(X.eq(_det(g), ZERO)))
    o = _inv(v) if n == k else _mm(_inv(g), v.T) if n > k else _mm(v.T, _inv(g))
    return out(o, m)


@handler("aten::linalg_lstsq")
def _lstsq(func, args, kwargs):
    a, b = V(args[0]), V(args[1])
    if a.ndim != 2 or a.shape[0] < a.shape[1]:
        raise EngineError("lstsq of this shape")
    g = _mm(a.T, a)
    engine.assume(X.not_(X.eq(_det(g), ZERO)))
    x = _mm(_inv(g), _mm(a.T, b.reshape(a.shape[0], -1))).reshape((a.shape[1],) + b.shape[1:])
    t = args[0]
    empty = torch.zeros(0, dtype=t.dtype)
    return from_vals(x, t.dtype), empty, torch.tensor(a.shape[1]), empty


@handler("aten::_linalg_det")
def _deth(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    o = _dets(v)
    lu = out(v, m[1])
    return tuple([out(o.reshape(tuple(m[0].shape)), m[0]), lu] + [out(_np0(ONE), x) for x in m[2:]])


@handler("aten::linalg_slogdet", "aten::_linalg_slogdet")
def _slogdet(func, args, kwargs):
    m = meta(func, args, kwargs)
    d = _dets(V(args[0])).reshape(tuple(m[0].shape))
    s = _map1(E.sign, d)
    l = _map1(lambda x: E.log(E.abs_(x)), d)
    return tuple([out(s, m[0]), out(l, m[1])] + [out(_np0(ZERO), x) for x in m[2:]])


# ------------------------------------------------------------------ indexing
def _nonzero_tuple(t):
    nz = _nonzero_arr(t)
    return [T.from_vals(_ints(nz[:, i]), torch.int64) for i in range(nz.shape[1])]


def _ints(a):
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = const(int(a[i]))
    return o


def _nonzero_arr(t):
    v = vals(t)
    conc = np.empty(v.shape, dtype=bool)
    for ix in np.ndindex(*v.shape):
        conc[ix] = engine.fork(E.to_bool(v[ix]))
    return np.argwhere(conc)


@handler("aten::nonzero")
def _nonzero(func, args, kwargs):
    return from_vals(_ints(_nonzero_arr(args[0])), torch.int64)


@handler("aten::masked_select")
def _masked_select(func, args, kwargs):
    v, mk = V(args[0]), V(args[1])
    v, mk = np.broadcast_arrays(v, mk)
    keep = [x for x, c in zip(v.reshape(-1), mk.reshape(-1)) if engine.fork(E.to_bool(c))]
    o = np.empty((len(keep),), dtype=object)
    for i, x in enumerate(keep):
        o[i] = x
    return from_vals(o, args[0].dtype)


def _expand_indices(indices):
    """bool masks -> integer index arrays; returns list of (None | object-int array)"""
    res = []
    for ix in indices:
        if ix is None:
            res.append(None)
        elif ix.dtype in (torch.bool, torch.uint8):
            nz = _nonzero_arr(ix)
            for d in range(ix.dim()):
                res.append(_ints(nz[:, d]))
        else:
            res.append(vals(ix))
    return res


def _index_layout(shape, idxs):
    """shape of advanced indexing result and an iterator: out position -> per-dim index element"""
    idxs = list(idxs) + [None] * (len(shape) - len(idxs))
    adv = [i for i, x in enumerate(idxs) if x is not None]
    bs = np.broadcast_shapes(*[idxs[i].shape for i in adv])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    rest_before = [d for d in range(len(shape)) if d not in adv and d < adv[0]] if contiguous else []
    rest_after = [d for d in range(len(shape)) if d not in adv and d not in rest_before]
    b = [np.broadcast_to(idxs[i], bs) for i in adv]
    oshape = tuple(shape[d] for d in rest_before) + tuple(bs) + tuple(shape[d] for d in rest_after)
    return adv, bs, rest_before, rest_after, b, oshape


def _neg_wrap(e, n):
    if e.op == "c":
        return const(e.args + n) if e.args < 0 else e
    lo, _, hi, _ = X.interval(e)
    if lo is not None and lo >= 0:
        return e
    return X.ite(X.lt(e, ZERO), X.add(e, const(n)), e)


def _read(v, coord, dims_sym):
    """v at coord where some coordinates are symbolic Exprs"""
    sub = v
    # resolve concrete coordinates first
    sel = tuple(int(c) if not isinstance(c, X.Expr) else slice(None) for c in coord)
    sub = v[sel]
    for c in [c for c in coord if isinstance(c, X.Expr)]:
        # always indexes axis 0 of what remains
        rows = [sub[k] for k in range(sub.shape[0])]
        if isinstance(rows[0], np.ndarray):
            acc = rows[-1]
            for k in range(len(rows) - 2, -1, -1):
                acc = _map2(lambda a, b, _c=X.eq(c, const(k)): E.where(_c, a, b), rows[k], acc)
            sub = acc
        else:
            sub = pick(rows, c)
    return sub


@handler("aten::index", "aten::_unsafe_index")
def _index(func, args, kwargs):
    t, indices = args
    v = V(t)
    idxs = _expand_indices(indices)
    shape = v.shape
    if sum(1 for _ in idxs) > len(shape):
        raise _MetaError(legit(IndexError("too many indices for tensor")))
    for ix in indices:
        pass
    _mask_shape_check(indices, shape)
    try:
        adv, bs, rb, ra, b, oshape = _index_layout(shape, idxs)
    except ValueError as e:
        raise _MetaError(legit(IndexError("shape mismatch: indexing tensors could not be broadcast together")))
    o = np.empty(oshape, dtype=object)
    nb, k = len(rb), len(bs)
    cache = {}
    for pos in np.ndindex(*oshape):
        coord = [None] * len(shape)
        for d, p in zip(rb, pos[:nb]):
            coord[d] = p
        for d, p in zip(ra, pos[nb + k:]):
            coord[d] = p
        for d, arr in zip(adv, b):
            e = arr[pos[nb:nb + k]]
            key = (d, e.id)
            c = cache.get(key)
            if c is None:
                w = engine.simp_num(_neg_wrap(e, shape[d]))
                _check_index(w, shape[d])
                c = cache[key] = int(w.args) if w.op == "c" else w
            coord[d] = c
        if any(isinstance(c, X.Expr) for c in coord):
            r = _read(v, coord, None)
            o[pos] = r[()] if isinstance(r, np.ndarray) else r
        else:
            o[pos] = v[tuple(coord)]
    return from_vals(o, t.dtype)


def _mask_shape_check(indices, shape):
    d = 0
    for ix in indices:
        if ix is None:
            d += 1
        elif ix.dtype in (torch.bool, torch.uint8):
            for j in range(ix.dim()):
                if d + j >= len(shape) or ix.shape[j] != shape[d + j]:
                    raise _MetaError(legit(IndexError(f"The shape of the mask {list(ix.shape)} does not match the shape of the indexed tensor {list(shape)}")))
            d += ix.dim()
        else:
            d += 1


@handler("aten::index_put", "aten::_index_put_impl", "aten::_unsafe_index_put")
def _index_put(func, args, kwargs):
    t, indices, values = args[:3]
    acc = bool(A(args, kwargs, 3, "accumulate", False))
    v = V(t).copy()
    vv = cast_arr(V(values), t.dtype)
    # one full-shape (possibly symbolic) boolean mask with a scalar: no forking needed
    if len(indices) >= 1 and all(i is None or i.dtype in (torch.bool, torch.uint8) for i in indices) and vv.size == 1 \
            and sum(i is not None for i in indices) == 1:
        mi = next(i for i in indices if i is not None)
        lead = sum(1 for i in indices if i is None and indices.index(mi) > 0) if indices[0] is None else 0
        _mask_shape_check(indices, v.shape)
        mk = vals(mi)
        pos_none = [k for k, i in enumerate(indices) if i is not None][0]
        mk = mk.reshape((1,) * pos_none + mk.shape + (1,) * (v.ndim - pos_none - mk.ndim))
        s = vv.reshape(-1)[0]
        if acc:
            r = _map2(lambda x, c: E.where(c, E.add(x, s), x), v, np.broadcast_to(mk, v.shape))
        else:
            r = _map2(lambda x, c: E.where(c, s, x), v, np.broadcast_to(mk, v.shape))
        return out(r, T.to_meta(t).clone())
    _mask_shape_check(indices, v.shape)
    idxs = _expand_indices(indices)
    shape = v.shape
    try:
        adv, bs, rb, ra, b, oshape = _index_layout(shape, idxs)
        vv = np.broadcast_to(vv, oshape)
    except ValueError:
        raise _MetaError(legit(RuntimeError(f"shape mismatch: value tensor of shape {list(vv.shape)} cannot be broadcast to indexing result of shape {list(oshape)}")))
    nb, k = len(rb), len(bs)
    for pos in np.ndindex(*oshape):
        coord = [None] * len(shape)
        for d, p in zip(rb, pos[:nb]):
            coord[d] = p
        for d, p in zip(ra, pos[nb + k:]):
            coord[d] = p
        for d, arr in zip(adv, b):
            w = engine.simp_num(_neg_wrap(arr[pos[nb:nb + k]], shape[d]))
            _check_index(w, shape[d])
            coord[d] = int(w.args) if w.op == "c" else w
        _store(v, coord, vv[pos], acc)
    return out(v, T.to_meta(t).clone())


HANDLERS["aten::_index_put_impl_"] = lambda func, args, kwargs: _inpl(_index_put, func, args, kwargs)
HANDLERS["aten::index_put_"] = lambda func, args, kwargs: _inpl(_index_put, func, args, kwargs)


def _inpl(h, func, args, kwargs):
    r = h(func, args, kwargs)
    write(args[0], vals(r))
    return args[0]


def _store(v, coord, val, acc=False, f=None):
    symd = [d for d, c in enumerate(coord) if isinstance(c, X.Expr)]
    f = f or (E.add if acc else (lambda old, new: new))
    if not symd:
        c = tuple(coord)
        v[c] = f(v[c], val)
        return
    ranges = [range(v.shape[d]) if isinstance(c, X.Expr) else (c,) for d, c in enumerate(coord)]
    import itertools
    for c in itertools.product(*ranges):
        cond = X.and_(*[X.eq(coord[d], const(c[d])) for d in symd])
        if cond is FALSE:
            continue
        v[c] = E.where(cond, f(v[c], val), v[c])


def _along(t, dim, index, f):
    """iterate gather/scatter positions"""
    nd = max(t.ndim, 1)
    dim = dim % nd
    for pos in np.ndindex(*index.shape):
        w = engine.simp_num(index[pos])
        n = t.shape[dim] if t.ndim else 1
        _check_index(w, n)
        c = list(pos)
        if c:
            c[dim] = int(w.args) if w.op == "c" else w
        f(pos, c)


@handler("aten::gather")
def _gather(func, args, kwargs):
    m = meta(func, args, kwargs)
    v, dim, ix = V(args[0]), args[1], V(args[2])
    o = np.empty(ix.shape, dtype=object)
    if v.ndim == 0:
        o[...] = v[()]
        return out(o, m)

    def f(pos, c):
        if any(isinstance(x, X.Expr) for x in c):
            r = _read(v, c, None)
            o[pos] = r[()] if isinstance(r, np.ndarray) else r
        else:
            o[pos] = v[tuple(c)]
    _along(v, dim, ix, f)
    return out(o, m)


@handler("aten::take_along_dim")
def _tad(func, args, kwargs):
    return _gather(func, (args[0], args[2], args[1]), {})


@handler("aten::scatter", "aten::scatter_add", "aten::scatter_reduce")
def _scatter(func, args, kwargs):
    m = meta(func, args, kwargs)
    v, dim, ix = V(args[0]).copy(), args[1], V(args[2])
    src = args[3] if len(args) > 3 else kwargs.get("src", kwargs.get("value"))
    sv = V(src)
    red = kwargs.get("reduce", args[4] if len(args) > 4 else None)
    f = None
    if func._schema.name.endswith("_add"):
        f = E.add
    elif red is not None:
        f = {"add": E.add, "sum": E.add, "multiply": E.mul, "prod": E.mul, "amax": E.maximum, "amin": E.minimum}[red]
        if not kwargs.get("include_self", True):
            raise EngineError("scatter_reduce include_self=False")
    if sv.ndim == 0 and not isinstance(src, torch.Tensor):
        sv = np.broadcast_to(sv, ix.shape)

    def g(pos, c):
        _store(v, c, sv[pos], f=f)
    _along(v, dim, ix, g)
    return out(v, m)


@handler("aten::index_add", "aten::index_copy", "aten::index_fill")
def _index_add(func, args, kwargs):
    m = meta(func, args, kwargs)
    v, dim, ix = V(args[0]).copy(), args[1], V(args[2])
    n = func._schema.name
    alpha = E.lift(kwargs.get("alpha", 1))
    dim = dim % max(v.ndim, 1)
    if n.endswith("fill"):
        src = np.broadcast_to(V(args[3]), v.shape[:dim] + (ix.size,) + v.shape[dim + 1:])
    else:
        src = V(args[3])
    f = (lambda o, x: E.add(o, E.mul(alpha, x))) if n.endswith("add") else (lambda o, x: x)
    w = [engine.simp_num(e) for e in ix.reshape(-1)]
    for e in w:
        _check_index(e, v.shape[dim])
    for pos in np.ndindex(*src.shape):
        c = list(pos)
        e = w[pos[dim]]
        c[dim] = int(e.args) if e.op == "c" else e
        _store(v, c, src[pos], f=f)
    return out(v, m)


@handler("aten::embedding")
def _embedding(func, args, kwargs):
    m = meta(func, args, kwargs)
    w, ix = V(args[0]), V(args[1])
    o = np.empty(ix.shape + w.shape[1:], dtype=object)
    for pos in np.ndindex(*ix.shape):
        e = engine.simp_num(ix[pos])
        _check_index(e, w.shape[0])
        o[pos] = w[int(e.args)] if e.op == "c" else _read(w, [e], None)
    return out(o, m)


@handler("aten::take")
def _take(func, args, kwargs):
    m = meta(func, args, kwargs)
    v, ix = V(args[0]).reshape(-1), V(args[1])
    o = np.empty(ix.shape, dtype=object)
    for pos in np.ndindex(*ix.shape):
        e = engine.simp_num(_neg_wrap(ix[pos], v.shape[0]))
        _check_index(e, v.shape[0])
        o[pos] = pick(list(v), e)
    return out(o, m)


@handler("aten::masked_scatter")
def _masked_scatter(func, args, kwargs):
    m = meta(func, args, kwargs)
    v, mk, src = V(args[0]).copy(), V(args[1]), list(V(args[2]).reshape(-1))
    mk = np.broadcast_to(mk, v.shape)
    j = 0
    for pos in np.ndindex(*v.shape):
        if engine.fork(E.to_bool(mk[pos])):
            v[pos] = src[j]
            j += 1
    return out(v, m)


@handler("aten::repeat_interleave")
def _rep_int(func, args, kwargs):
    # Tensor overload: repeats -> index vector
    r = concrete_index(args[0])
    return sym_copy(func(r, *args[1:], **kwargs))


@handler("aten::searchsorted", "aten::bucketize")
def _searchsorted(func, args, kwargs):
    m = meta(func, args, kwargs)
    if func._schema.name.endswith("bucketize"):
        inp, seq = args[0], args[1]
    else:
        seq, inp = args[0], args[1]
        if kwargs.get("sorter") is not None:
            raise EngineError("searchsorted sorter")
    right = kwargs.get("right", False) or kwargs.get("side", "left") == "right"
    nm = [a.name for a in func._schema.arguments]
    if "right" in nm and nm.index("right") < len(args):
        right = right or bool(args[nm.index("right")])
    sv, iv = V(seq), V(inp)
    o = np.empty(iv.shape, dtype=object)
    for pos in np.ndindex(*iv.shape):
        row = sv if sv.ndim == 1 else sv[pos[:-1]]
        x = iv[pos]
        # sorted boundaries: number of boundaries below x
        o[pos] = X.add(*[E.to_num(E.le(b, x) if right else E.lt(b, x)) for b in row]) if len(row) else ZERO
    return out(o, m)


def _sort_cols(xs, descending):
    """stable sort of elements with symbolic comparisons (odd-even insertion network);
    returns (values, indices)"""
    n = len(xs)
    a = [(x, const(i)) for i, x in enumerate(xs)]
    def before(x, y):
        # y must move before x
        if descending:
            return X.or_(E.lt(x, y), X.and_(E.isnan(y), X.not_(E.isnan(x))))
        return X.or_(E.lt(y, x), X.and_(E.isnan(x), X.not_(E.isnan(y))))
    for i in range(1, n):
        for j in range(i, 0, -1):
            (x, xi), (y, yi) = a[j - 1], a[j]
            c = engine.simp(before(x, y))
            if c is FALSE:
                break
            a[j - 1] = (E.where(c, y, x), X.ite(c, yi, xi))
            a[j] = (E.where(c, x, y), X.ite(c, xi, yi))
    return [x for x, _ in a], [i for _, i in a]


def _sort_arr(v, dim, descending):
    if v.ndim == 0:
        return v, _np0(ZERO)
    w = np.moveaxis(v, dim, -1)
    o = np.empty(w.shape, dtype=object)
    oi = np.empty(w.shape, dtype=object)
    for ix in np.ndindex(*w.shape[:-1]):
        a, b = _sort_cols(list(w[ix]), descending)
        for i in range(len(a)):
            o[ix + (i,)], oi[ix + (i,)] = a[i], b[i]
    return np.moveaxis(o, -1, dim), np.moveaxis(oi, -1, dim)


@handler("aten::sort", "aten::msort")
def _sort(func, args, kwargs):
    m = meta(func, args, kwargs)
    nm = [a.name for a in func._schema.arguments]
    def g(name, d):
        return kwargs.get(name, args[nm.index(name)] if name in nm and nm.index(name) < len(args) else d)
    o, oi = _sort_arr(V(args[0]), g("dim", -1), g("descending", False))
    return torch.return_types.sort((out(o, m[0]), out(oi, m[1])))


@handler("aten::argsort")
def _argsort(func, args, kwargs):
    m = meta(func, args, kwargs)
    nm = [a.name for a in func._schema.arguments]
    def g(name, d):
        return kwargs.get(name, args[nm.index(name)] if name in nm and nm.index(name) < len(args) else d)
    return out(_sort_arr(V(args[0]), g("dim", -1), g("descending", False))[1], m)


@handler("aten::topk")
def _topk(func, args, kwargs):
    m = meta(func, args, kwargs)
    k, dim, largest = args[1], A(args, kwargs, 2, "dim", -1), A(args, kwargs, 3, "largest", True)
    o, oi = _sort_arr(V(args[0]), dim, largest)
    sl = [slice(None)] * o.ndim
    sl[dim] = slice(0, k)
    return torch.return_types.topk((out(o[tuple(sl)], m[0]), out(oi[tuple(sl)], m[1])))


@handler("aten::kthvalue")
def _kth(func, args, kwargs):
    m = meta(func, args, kwargs)
    k, dim = args[1], A(args, kwargs, 2, "dim", -1)
    keep = A(args, kwargs, 3, "keepdim", False)
    o, oi = _sort_arr(V(args[0]), dim, False)
    o, oi = np.take(o, k - 1, axis=dim), np.take(oi, k - 1, axis=dim)
    if keep:
        o, oi = np.expand_dims(o, dim), np.expand_dims(oi, dim)
    return torch.return_types.kthvalue((out(_nd(o), m[0]), out(_nd(oi), m[1])))


def _nd(x):
    return x if isinstance(x, np.ndarray) else _np0(x)


@handler("aten::median", "aten::nanmedian")
def _median(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    if "nan" in func._schema.name and any(type(x) is E.Ext for x in v.reshape(-1)):
        raise EngineError("nanmedian with NaN candidates")
    if len(args) == 1 and "dim" not in kwargs:
        o, _ = _sort_arr(v.reshape(-1), 0, False)
        n = v.size
        r = o[(n - 1) // 2]
        anyn = X.or_(*[E.isnan(x) for x in o])
        return out(_np0(E.where(anyn, E.NAN, r)), m)
    dim = A(args, kwargs, 1, "dim")
    keep = A(args, kwargs, 2, "keepdim", False)
    o, oi = _sort_arr(v, dim, False)
    k = (v.shape[dim] - 1) // 2
    o, oi = np.take(o, k, axis=dim), np.take(oi, k, axis=dim)
    if keep:
        o, oi = np.expand_dims(o, dim), np.expand_dims(oi, dim)
    return torch.return_types.median((out(_nd(o), m[0]), out(_nd(oi), m[1])))


@handler("aten::bincount")
def _bincount(func, args, kwargs):
    v = V(args[0])
    w = A(args, kwargs, 1, "weights")
    minlength = int(A(args, kwargs, 2, "minlength", 0))
    xs = [engine.simp_num(x) for x in v.reshape(-1)]
    # the result's length depends on the maximum
    mx = _vmax(xs) if xs else const(-1)
    n = max(engine.fork_int(mx) + 1 if mx.op != "c" else int(mx.args) + 1, minlength)
    for x in xs:
        if X.lt(x, ZERO) is not FALSE and engine.fork(X.lt(x, ZERO)):
            raise _MetaError(legit(RuntimeError("bincount only supports 1-d non-negative integral inputs.")))
    ws = list(V(w).reshape(-1)) if w is not None else [ONE] * len(xs)
    o = np.empty((n,), dtype=object)
    for k in range(n):
        o[k] = E.vsum([E.where(X.eq(x, const(k)), wt, ZERO) for x, wt in zip(xs, ws)])
    return from_vals(o, torch.int64 if w is None else (torch.float64 if w.dtype not in (torch.float32,) else torch.float64))


def _unique_core(xs):
    """fork until the equality/order pattern of xs is concrete; returns sorted distinct + inverse"""
    reps = []
    inv = []
    for x in xs:
        x = engine.simp_num(x) if type(x) is X.Expr else x
        for j, r in enumerate(reps):
            if engine.fork(E.eq(x, r)):
                inv.append(j)
                break
        else:
            reps.append(x)
            inv.append(len(reps) - 1)
    order = []
    for j, r in enumerate(reps):
        p = 0
        while p < len(order) and engine.fork(E.lt(reps[order[p]], r)):
            p += 1
        order.insert(p, j)
    rank = {j: p for p, j in enumerate(order)}
    return [reps[j] for j in order], [rank[j] for j in inv]


@handler("aten::_unique2", "aten::_unique", "aten::unique_dim")
def _unique2(func, args, kwargs):
    if func._schema.name == "aten::unique_dim":
        return _unique_dim(func, args, kwargs)
    t = args[0]
    v = V(t)
    vals_, inv = _unique_core(list(v.reshape(-1)))
    o = np.empty((len(vals_),), dtype=object)
    for i, x in enumerate(vals_):
        o[i] = x
    iv = np.array(inv, dtype=np.int64).reshape(v.shape)
    counts = np.bincount(np.array(inv, dtype=np.int64), minlength=len(vals_)) if inv else np.zeros(0, dtype=np.int64)
    r = (from_vals(o, t.dtype), from_vals(_ints(iv), torch.int64), from_vals(_ints(counts), torch.int64))
    return r if func._schema.name.endswith("2") else r[:2]


@handler("aten::unique_consecutive")
def _unique_consecutive(func, args, kwargs):
    t = args[0]
    if A(args, kwargs, 3, "dim", None) is not None:
        raise EngineError("unique_consecutive(dim)")
    v = V(t)
    heads, inv = [], []
    for x in v.reshape(-1):
        if not heads or not engine.fork(E.eq(heads[-1], x)):
            heads.append(x)
        inv.append(len(heads) - 1)
    o = np.empty((len(heads),), dtype=object)
    for i, x in enumerate(heads):
        o[i] = x
    iv = np.array(inv, dtype=np.int64).reshape(v.shape)
    return from_vals(o, t.dtype), from_vals(_ints(iv), torch.int64), from_vals(_ints(np.bincount(iv.reshape(-1), minlength=len(heads))), torch.int64)


@handler("aten::mode")
def _mode(func, args, kwargs):
    m = meta(func, args, kwargs)
    v = V(args[0])
    dim = A(args, kwargs, 1, "dim", -1)
    keep = A(args, kwargs, 2, "keepdim", False)
    v = np.moveaxis(v, dim, -1)
    o, w = np.empty(v.shape[:-1], dtype=object), np.empty(v.shape[:-1], dtype=object)
    for ix in np.ndindex(*o.shape):
        xs = list(v[ix])
        counts = [X.add(*[E.to_num(E.eq(x, y)) for y in xs]) for x in xs]
        best = 0
        for j in range(1, len(xs)):      # most frequent, then smallest value; index of its last occurrence is unspecified
            if engine.fork(X.or_(X.lt(counts[best], counts[j]), X.and_(X.eq(counts[best], counts[j]), E.lt(xs[j], xs[best])))):
                best = j
        o[ix], w[ix] = xs[best], const(best)
    return torch.return_types.mode((out(o.reshape(tuple(m[0].shape)), m[0]), out(w.reshape(tuple(m[1].shape)), m[1])))


@handler("aten::put", "aten::put_")
def _put(func, args, kwargs):
    t, ix, src = args[:3]
    v = V(t).copy()
    flat = v.reshape(-1)
    for i, x in zip(V(ix).reshape(-1), V(src).reshape(-1)):
        k = concrete_value(i)
        if k is None:
            raise EngineError("put at symbolic positions")
        flat[int(k)] = E.add(flat[int(k)], x) if A(args, kwargs, 3, "accumulate", False) else x
    if func._schema.name.endswith("_"):
        write(t, flat.reshape(v.shape))
        return t
    return from_vals(flat.reshape(v.shape), t.dtype)


def _unique_dim(func, args, kwargs):
    t, dim = args[0], args[1]
    v = np.moveaxis(V(t), dim, 0)
    rows = [list(r.reshape(-1)) for r in v]
    reps, inv = [], []
    for r in rows:
        for j, q in enumerate(reps):
            if engine.fork(X.and_(*[E.eq(a, b) for a, b in zip(r, q)])):
                inv.append(j)
                break
        else:
            reps.append(r)
            inv.append(len(reps) - 1)

    def less(a, b):
        c = FALSE
        for x, y in reversed(list(zip(a, b))):
            c = X.or_(E.lt(x, y), X.and_(E.eq(x, y), c))
        return c
    order = []
    for j, r in enumerate(reps):
        p = 0
        while p < len(order) and engine.fork(less(reps[order[p]], r)):
            p += 1
        order.insert(p, j)
    rank = {j: p for p, j in enumerate(order)}
    inv = [rank[j] for j in inv]
    o = np.empty((len(order),) + v.shape[1:], dtype=object)
    for p, j in enumerate(order):
        first = next(i for i, k in enumerate(inv) if k == p)
        o[p] = v[first]
    o = np.moveaxis(o, 0, dim)
    counts = np.bincount(np.array(inv), minlength=len(order))
    return from_vals(o, t.dtype), from_vals(_ints(np.array(inv)), torch.int64), from_vals(_ints(counts), torch.int64)


@handler("aten::histc")
def _histc(func, args, kwargs):
    v = V(args[0]).reshape(-1)
    bins = int(A(args, kwargs, 1, "bins", 100))
    lo, hi = E.lift(A(args, kwargs, 2, "min", 0)), E.lift(A(args, kwargs, 3, "max", 0))
    if lo.args == hi.args:
        raise EngineError("histc with data range")
    w = (hi.args - lo.args) / bins
    o = np.empty((bins,), dtype=object)
    for b in range(bins):
        a, c = lo.args + w * b, lo.args + w * (b + 1)
        last = b == bins - 1
        o[b] = X.add(*[E.to_num(X.and_(E.le(const(a), x), E.le(x, const(c)) if last else E.lt(x, const(c)))) for x in v])
    return from_vals(o, args[0].dtype)


@handler("aten::cross", "aten::linalg_cross")
def _cross(func, args, kwargs):
    raise EngineError("cross")


@handler("aten::_cdist_forward", "aten::cdist")
def _cdist(func, args, kwargs):
    m = meta(func, args, kwargs)
    a, b, p = V(args[0]), V(args[1]), args[2]
    o = np.empty(tuple(m.shape), dtype=object)
    for i in np.ndindex(*o.shape):
        x, y = a[i[:-2] + (i[-2],)], b[i[:-2] + (i[-1],)]
        d = [E.sub(u, w) for u, w in zip(x, y)]
        if p == 2:
            o[i] = E.sqrt(E.vsum([E.mul(u, u) for u in d]))
        elif p == 1:
            o[i] = E.vsum([E.abs_(u) for u in d])
        else:
            raise EngineError("cdist p")
    return out(o, m)


# foreach / fused optimizer kernels are not interpreted: optimizers are stubbed or run with foreach=False


@handler("aten::_efficientzerotensor")
def _zerotensor(func, args, kwargs):
    return torch.ops.aten.zeros.default(args[0], dtype=kwargs.get("dtype"))


@handler("aten::_has_same_storage_numel")
def _same_storage(func, args, kwargs):
    return tuple(args[0].shape) == tuple(args[1].shape)
