"""SymTensor: torch tensors whose elements are symbolic.  A __torch_dispatch__
interpreter for ATen: the real Python code of the library, torch's Python
front end, autograd and functorch run unmodified on top of it."""
from __future__ import annotations
import contextlib
import functools
import itertools
import math
from fractions import Fraction
import operator
import numpy as np
import torch
import torch.utils._mode_utils
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from torch.overrides import TorchFunctionMode
from torch.utils._pytree import tree_map, tree_flatten
from . import expr as X
from . import elem as E
from .elem import EngineError
from .engine import engine

aten = torch.ops.aten


class Storage:
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr


class SymTensor(torch.Tensor):
    _st: Storage

    @staticmethod
    def __new__(cls, st, size, stride, offset, dtype, requires_grad=False):
        t = torch.Tensor._make_wrapper_subclass(
            cls, tuple(size), strides=tuple(stride), storage_offset=offset, dtype=dtype, device="cpu",
            requires_grad=requires_grad)
        t._st = st
        return t

    def __init__(self, *a, **k):
        pass

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # values leaving the tensor world
    def item(self):
        return sym_item(self)

    def tolist(self):
        return sym_tolist(self)

    def __bool__(self):
        if self.numel() != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return engine.fork(E.to_bool(vals(self).reshape(-1)[0]))

    def __int__(self):
        return int_of(vals(self).reshape(-1)[0])

    __index__ = __int__

    def __float__(self):
        e = vals(self).reshape(-1)[0]
        f = constant_float(e)
        if f is None:
            raise EngineError("float() of a symbolic tensor")
        return float(f)

    def numpy(self, *a, **k):
        return sym_numpy(self)

    def __array__(self, dtype=None, copy=None):
        return sym_numpy(self)

    def __format__(self, spec):
        return "<sym>"

    def __floor__(self):
        return int_of(E.floor(vals(self).reshape(-1)[0]))

    def __ceil__(self):
        return int_of(E.ceil(vals(self).reshape(-1)[0]))

    def __repr__(self, *a, **k):
        return f"SymTensor(shape={tuple(self.shape)}, dtype={self.dtype})"

    def __deepcopy__(self, memo):
        r = from_vals(vals(self).copy(), self.dtype)
        if self.requires_grad:
            r.requires_grad_(True)
        if isinstance(self, torch.nn.Parameter):
            r = torch.nn.Parameter(r.detach(), requires_grad=self.requires_grad)
        memo[id(self)] = r
        return r


_idx_cache = {}


def positions(size, stride, offset):
    k = (size, stride, offset)
    r = _idx_cache.get(k)
    if r is None:
        r = np.full(size, offset, dtype=np.int64)
        for d, (n, s) in enumerate(zip(size, stride)):
            sh = [1] * len(size)
            sh[d] = n
            r = r + (np.arange(n, dtype=np.int64) * s).reshape(sh)
        if len(_idx_cache) > 5000:
            _idx_cache.clear()
        _idx_cache[k] = r
    return r


def _geom(t):
    return tuple(t.shape), tuple(t.stride()), t.storage_offset()


def vals(t) -> np.ndarray:
    """object array of elements, shaped like t (a copy / fancy-indexed)"""
    if isinstance(t, SymTensor):
        pos = positions(*_geom(t))
        if pos.ndim == 0:
            return _np0(t._st.arr[int(pos)])
        return t._st.arr[pos]
    return lift_plain(t)


def lift_plain(t):
    a = t.detach().cpu()
    dt = a.dtype
    if dt == torch.bool:
        flat = [X.TRUE if v else X.FALSE for v in a.reshape(-1).tolist()]
    elif dt.is_floating_point:
        single = dt != torch.float64
        flat = [E.lift(v, single) for v in a.reshape(-1).tolist()]
    else:
        flat = [X.const(v) for v in a.reshape(-1).tolist()]
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        out[i] = v
    return out.reshape(tuple(a.shape))


def contiguous_strides(size):
    s, out = 1, []
    for n in reversed(size):
        out.append(s)
        s *= max(n, 1)
    return tuple(reversed(out))


def from_vals(v, dtype, stride=None):
    if not isinstance(v, np.ndarray):
        a = np.empty((), dtype=object)
        a[()] = v
        v = a
    size = tuple(v.shape)
    if stride is None or v.ndim == 0:
        flat = np.empty(v.size, dtype=object)
        flat[:] = v.reshape(-1)
        return SymTensor(Storage(flat), size, contiguous_strides(size), 0, dtype)
    n = 1 + sum((d - 1) * s for d, s in zip(size, stride)) if v.size else 0
    flat = np.empty(n, dtype=object)
    flat[positions(size, tuple(stride), 0)] = v
    return SymTensor(Storage(flat), size, stride, 0, dtype)


def write(t, v):
    """in-place write of v (object array broadcastable) into t"""
    if isinstance(t, SymTensor):
        pos = positions(*_geom(t))
        v = cast_arr(np.broadcast_to(v, pos.shape), t.dtype)
        if pos.ndim == 0:
            t._st.arr[int(pos)] = v[()]
        else:
            t._st.arr[pos] = v
        return
    # plain tensor: only concrete values can be stored
    v = np.broadcast_to(v, tuple(t.shape))
    flat = [concrete_value(x) for x in v.reshape(-1)]
    if any(x is None for x in flat):
        raise EngineError("symbolic value written into a plain tensor")
    src = torch.tensor([float(x) if t.dtype.is_floating_point else x for x in flat], dtype=t.dtype).reshape(t.shape)
    t.copy_(src)


def constant_float(e):
    """float of an expression without variables (e.g. exp(4)), else None"""
    f = concrete_value(e)
    if f is None and type(e) is not E.Ext and not X.free_vars([e]):
        f = X.evaluate([e], {})[0]
    return f


def concrete_value(e):
    """python number of a concrete element, else None"""
    if type(e) is E.Ext:
        if e is E.NAN:
            return math.nan
        if e is E.PINF:
            return math.inf
        if e is E.NINF:
            return -math.inf
        return None
    if e.op == "b":
        return e.args
    if e.op == "c":
        return int(e.args) if e.args.denominator == 1 else float(e.args)
    return None


def all_concrete(v):
    return all(E.is_concrete(x) for x in v.reshape(-1))


def to_plain(t):
    """concrete SymTensor -> real tensor"""
    if not isinstance(t, SymTensor):
        return t
    v = vals(t)
    flat = [concrete_value(x) for x in v.reshape(-1)]
    if any(x is None for x in flat):
        return None
    if t.dtype.is_floating_point:
        flat = [float(x) for x in flat]
    elif t.dtype != torch.bool:
        flat = [int(x) for x in flat]
    return torch.tensor(flat, dtype=t.dtype).reshape(tuple(t.shape))


def cast_elem(e, dtype):
    if dtype == torch.bool:
        return E.to_bool(e)
    e = E.to_num(e)
    if dtype.is_floating_point:
        return e
    # integer: truncation towards zero; NaN/inf become an arbitrary value
    if type(e) is E.Ext:
        g = X.or_(e.nan, e.pinf, e.ninf)
        v = e.v if X.is_int(e.v) else E.trunc(e.v)
        if g is X.TRUE:
            return X.const(-9223372036854775808)
        return X.ite(g, X.const(-9223372036854775808), v)
    if X.is_int(e):
        return e
    return E.trunc(e)


def cast_arr(v, dtype):
    return _map1(lambda e: cast_elem(e, dtype), v)


def _map1(f, a):
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    memo = {}
    for i in range(af.shape[0]):
        x = af[i]
        k = id(x)
        r = memo.get(k)
        if r is None:
            r = memo[k] = f(x)
        of[i] = r
    return out


def _map2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    of, af, bf = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = f(af[i], bf[i])
    return out


def _map3(f, a, b, c):
    a, b, c = np.broadcast_arrays(a, b, c)
    out = np.empty(a.shape, dtype=object)
    of, af, bf, cf = out.reshape(-1), a.reshape(-1), b.reshape(-1), c.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = f(af[i], bf[i], cf[i])
    return out


# ------------------------------------------------------------------ scalars
class SymScalar:
    """python number with a symbolic value"""
    __slots__ = ("_elem",)
    __array_priority__ = 1000

    def __init__(self, e):
        self._elem = e

    def _b(self, o, f, rev=False):
        if isinstance(o, torch.Tensor):
            return NotImplemented
        if isinstance(o, np.ndarray):
            return NotImplemented
        try:
            o = E.lift(o)
        except EngineError:
            return NotImplemented
        return SymScalar(f(o, self._elem) if rev else f(self._elem, o))

    def __add__(self, o): return self._b(o, E.add)
    def __radd__(self, o): return self._b(o, E.add, True)
    def __sub__(self, o): return self._b(o, E.sub)
    def __rsub__(self, o): return self._b(o, E.sub, True)
    def __mul__(self, o): return self._b(o, E.mul)
    def __rmul__(self, o): return self._b(o, E.mul, True)
    def __truediv__(self, o): return self._b(o, E.div)
    def __rtruediv__(self, o): return self._b(o, E.div, True)
    def __pow__(self, o): return self._b(o, E.pow_)
    def __rpow__(self, o): return self._b(o, E.pow_, True)
    def __floordiv__(self, o): return self._b(o, lambda a, b: E.floor(E.div(a, b)))
    def __mod__(self, o): return self._b(o, E.remainder)
    def __neg__(self): return SymScalar(E.neg(self._elem))
    def __pos__(self): return self
    def __abs__(self): return SymScalar(E.abs_(self._elem))
    def __lt__(self, o): return self._b(o, E.lt)
    def __le__(self, o): return self._b(o, E.le)
    def __gt__(self, o): return self._b(o, lambda a, b: E.lt(b, a))
    def __ge__(self, o): return self._b(o, lambda a, b: E.le(b, a))
    def __eq__(self, o): return self._b(o, E.eq)
    def __ne__(self, o): return self._b(o, E.ne)
    __hash__ = None
    def __and__(self, o): return SymScalar(X.and_(E.to_bool(self._elem), E.to_bool(E.lift(o))))
    def __or__(self, o): return SymScalar(X.or_(E.to_bool(self._elem), E.to_bool(E.lift(o))))
    def __invert__(self): return SymScalar(X.not_(E.to_bool(self._elem)))
    __rand__ = __and__
    __ror__ = __or__

    def __bool__(self):
        return engine.fork(E.to_bool(self._elem))

    def __int__(self):
        return int_of(self._elem)

    __index__ = __int__

    def __float__(self):
        v = constant_float(self._elem)
        if v is None:
            raise EngineError("float() of a symbolic scalar")
        return float(v)

    def __round__(self, n=None):
        if n is None:
            return int_of(E.round_half_even(self._elem))
        k = X.const(Fraction(10) ** n)
        return SymScalar(E.div(E.round_half_even(E.mul(self._elem, k)), k))

    def __divmod__(self, o):
        return self // o, self % o

    def item(self):
        return self

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        """lets torch functions accept symbolic numbers; FnMode, which comes first, knows what to do with them"""
        args, kwargs = tree_map(_unwrap_arg, (args, kwargs or {}))
        return func(*args, **kwargs)

    def sqrt(self): return SymScalar(E.sqrt(self._elem))
    def exp(self): return SymScalar(E.exp(self._elem))
    def log(self): return SymScalar(E.log(self._elem))

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"Sym({self._elem})"

    def __deepcopy__(self, memo):
        return self

    def __floor__(self):
        return int_of(E.floor(self._elem))

    def __ceil__(self):
        return int_of(E.ceil(self._elem))

    def __trunc__(self):
        return int_of(self._elem)


def _tensor_operands(name, op, rev):
    """arithmetic of a symbolic number with a tensor is that of a 0-dimensional tensor"""
    plain = getattr(SymScalar, name)

    def f(self, o):
        if isinstance(o, torch.Tensor):
            t = build_tensor(self, None, False)
            return op(o, t) if rev else op(t, o)
        return plain(self, o)
    f.__name__ = name
    setattr(SymScalar, name, f)


for _n in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne"):
    _tensor_operands(f"__{_n}__", getattr(operator, _n), False)
for _n in ("add", "sub", "mul", "truediv", "pow"):
    _tensor_operands(f"__r{_n}__", getattr(operator, _n), True)


def int_of(e):
    e = cast_elem(e, torch.int64)
    v = concrete_value(e)
    if v is not None:
        return int(v)
    return engine.fork_int(e)


def _scalar_out(e, dtype):
    v = concrete_value(e)
    if dtype == torch.bool:
        return bool(v) if v is not None else engine.fork(E.to_bool(e))
    if dtype.is_floating_point:
        return float(v) if v is not None else SymScalar(e)
    return int(v) if v is not None else engine.fork_int(e)


def sym_item(t):
    if t.numel() != 1:
        raise RuntimeError(f"a Tensor with {t.numel()} elements cannot be converted to Scalar")
    return _scalar_out(vals(t).reshape(-1)[0], t.dtype)


def sym_tolist(t):
    v = vals(t)
    def rec(a):
        if a.ndim == 0:
            return _scalar_out(a[()], t.dtype)
        return [rec(x) if isinstance(x, np.ndarray) else _scalar_out(x, t.dtype) for x in a]
    return rec(v)


_np_dtype = {torch.float32: np.float32, torch.float64: np.float64, torch.int64: np.int64, torch.int32: np.int32,
             torch.bool: np.bool_, torch.uint8: np.uint8, torch.int16: np.int16, torch.int8: np.int8, torch.float16: np.float16}


def sym_numpy(t):
    v = vals(t)
    if all_concrete(v):
        p = to_plain(t)
        with _disable_current_modes():
            return torch.Tensor.numpy(p)
    return _map1(lambda e: (concrete_value(e) if E.is_concrete(e) else SymScalar(e)), v).view(SymArray)


class SymArray(np.ndarray):
    """numpy array of python numbers, some symbolic"""
    _UNARY = dict(isnan=E.isnan, isinf=E.isinf, rint=E.round_half_even, floor=E.floor, ceil=E.ceil, tanh=E.tanh, log=E.log, exp=E.exp,
                  sqrt=E.sqrt, log1p=lambda e: E.log(E.add(X.ONE, e)), expm1=lambda e: E.sub(E.exp(e), X.ONE), conjugate=lambda e: e,
                  isfinite=lambda e: X.not_(X.or_(E.to_bool(E.isnan(e)), E.to_bool(E.isinf(e)))),
                  square=lambda e: E.mul(e, e), sign=E.sign, absolute=E.abs_, negative=E.neg)
    _BINARY = dict(maximum=E.maximum, minimum=E.minimum)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x) if isinstance(x, np.ndarray) else x for x in inputs]
        f, name = None, ufunc.__name__
        if method == "__call__" and out is None:
            f = self._UNARY.get(name) if len(ins) == 1 else self._BINARY.get(name)
        if f is not None:
            arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in ins])
            r = np.empty(arrs[0].shape, dtype=object)
            for ix in np.ndindex(*r.shape):
                e = f(*[x._elem if isinstance(x, SymScalar) else E.lift(x) for x in (a[ix] for a in arrs)])
                v = concrete_value(e)
                r[ix] = SymScalar(e) if v is None else bool(v) if name.startswith("is") else float(v)
            if not any(isinstance(x, SymScalar) for x in r.reshape(-1)):
                r = np.array(r.tolist(), dtype=np.bool_ if name.startswith("is") else np.float32).reshape(r.shape)
        else:
            if out is not None:
                kw["out"] = tuple(np.asarray(o) if isinstance(o, np.ndarray) else o for o in out)
            r = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            return out[0]
        return r.view(SymArray) if isinstance(r, np.ndarray) and r.dtype == object else r

    def astype(self, dtype, *a, **k):
        dtype = np.dtype(dtype)
        if dtype.kind == "f":
            return self.copy()
        if dtype.kind in "iub":
            to = torch.bool if dtype.kind == "b" else torch.int64
            return np.array([_scalar_out(cast_elem(x._elem if isinstance(x, SymScalar) else E.lift(x), to), to)
                             for x in self.reshape(-1)], dtype=dtype).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def round(self, decimals=0, out=None):
        k = 10 ** decimals
        return np.rint(self * k) / k if decimals else np.rint(self)

    def clip(self, a_min=None, a_max=None, **k):
        a_min, a_max = k.get("min", a_min), k.get("max", a_max)
        r = self if a_min is None else np.maximum(self, a_min)
        return r if a_max is None else np.minimum(r, a_max)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis=axis, keepdims=True)
        n = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return np.sqrt(v) if isinstance(v, np.ndarray) else v.sqrt() if isinstance(v, SymScalar) else math.sqrt(v)


# ------------------------------------------------------------------ dispatch
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


MAX_LIFT = 60000


def _unwrap_arg(a):
    if isinstance(a, SymScalar):
        return from_vals(a._elem, torch.get_default_dtype())
    return a


def to_meta(a):
    if isinstance(a, torch.Tensor):
        if a.device.type == "meta":
            return a
        if a.numel() == 0 and False:
            return a
        size, stride, off = _geom(a)
        n = off + 1 + sum((d - 1) * s for d, s in zip(size, stride)) if a.numel() else off
        b = torch.empty(max(n, 0), dtype=a.dtype, device="meta")
        return torch.as_strided(b, size, stride, off)
    return a


def run_meta(func, args, kwargs):
    margs, mkw = tree_map(to_meta, (args, kwargs))
    if "device" in mkw:
        mkw = dict(mkw)
        mkw["device"] = torch.device("meta")
    return func(*margs, **mkw)


class _Legit(Exception):
    pass


def kernel_error(func, args, kwargs):
    """the exception the real kernel raises for tensors of these shapes and types (None: it accepts them)"""
    def plain(t):
        return torch.zeros(tuple(t.shape), dtype=t.dtype) if isinstance(t, torch.Tensor) else t
    with torch.utils._python_dispatch._disable_current_modes():
        try:
            a, k = tree_map(plain, (args, kwargs))
            func(*a, **k)
        except (EngineError, NotImplementedError):
            return None
        except Exception as e:
            return e
    return None


def is_view_op(func):
    r = getattr(func, "_is_view", None)
    if r is None:
        r = False
        sch = func._schema
        for ret in sch.returns:
            if ret.alias_info is not None and not ret.alias_info.is_write:
                r = True
        func._is_view = r
    return r


def is_inplace(func):
    r = getattr(func, "_is_inpl", None)
    if r is None:
        sch = func._schema
        r = bool(sch.arguments) and sch.arguments[0].alias_info is not None and sch.arguments[0].alias_info.is_write \
            and sch.name.endswith("_")
        func._is_inpl = r
    return r


def is_out(func):
    r = getattr(func, "_is_out", None)
    if r is None:
        sch = func._schema
        r = not sch.name.endswith("_") and any(a.kwarg_only and a.alias_info is not None and a.alias_info.is_write for a in sch.arguments)
        func._is_out = r
    return r


DATA_MOVE = {
    "aten::cat", "aten::stack", "aten::repeat", "aten::flip", "aten::roll", "aten::index_select",
    "aten::clone", "aten::contiguous", "aten::tril", "aten::triu", "aten::rot90", "aten::constant_pad_nd",
    "aten::diag_embed", "aten::select_scatter", "aten::slice_scatter", "aten::_unsafe_view",
    "aten::select_backward", "aten::slice_backward", "aten::diagonal_backward", "aten::as_strided_copy",
    "aten::block_diag", "aten::unfold_backward", "aten::diagonal_scatter", "aten::permute_copy", "aten::view_copy",
    "aten::expand_copy", "aten::_reshape_copy", "aten::unsqueeze_copy", "aten::squeeze_copy", "aten::hstack", "aten::vstack",
    "aten::reflection_pad1d", "aten::replication_pad1d", "aten::channel_shuffle", "aten::diag",
    "aten::unsafe_split", "aten::unsafe_chunk", "aten::unsafe_split_with_sizes", "aten::split_with_sizes_copy",
    "aten::t_copy", "aten::transpose_copy", "aten::alias_copy", "aten::detach_copy", "aten::split_copy", "aten::unbind_copy",
    "aten::select_copy", "aten::slice_copy", "aten::narrow_copy", "aten::lift", "aten::lift_fresh_copy",
}


def dispatch(func, args, kwargs):
    name = func._schema.name
    try:
        if is_view_op(func):
            return do_view(func, args, kwargs)
        if is_out(func):
            return do_out(func, args, kwargs)
        h = HANDLERS.get(func._schema.name + ("." + func._schema.overload_name if func._schema.overload_name else ""))
        if h is None:
            h = HANDLERS.get(name)
        if h is not None:
            return h(func, args, kwargs)
        if torch.Tag.inplace_view in func.tags and isinstance(args[0], SymTensor):
            # changes of shape in place (squeeze_, unsqueeze_, t_, ...): only the wrapper's own geometry changes
            with torch.utils._mode_utils.no_dispatch():
                func(*args, **kwargs)
            return args[0]
        if is_inplace(func):
            return do_inplace(func, args, kwargs)
        if name in DATA_MOVE:
            return do_move(func, args, kwargs)
        if any(a.alias_info is not None and a.alias_info.is_write for a in func._schema.arguments):
            return do_out(func, args, kwargs)
        return do_fallback(func, args, kwargs)
    except (EngineError, _Legit):
        raise
    except _MetaError as e:
        raise e.orig from None
    except (RuntimeError, IndexError, ValueError, TypeError, KeyError, AttributeError, NotImplementedError, ZeroDivisionError, AssertionError) as e:
        if getattr(e, "_legit", False):
            raise
        k = kernel_error(func, args, kwargs)
        if k is not None:
            raise legit(k) from None
        import traceback
        raise EngineError(f"{name}: {type(e).__name__}: {e}\n{traceback.format_exc()}") from e


class _MetaError(BaseException):
    def __init__(self, orig):
        self.orig = orig


def legit(e):
    """mark an exception as one the real kernel would raise too"""
    try:
        e._legit = True
    except Exception:
        pass
    return e


def meta(func, args, kwargs):
    try:
        return run_meta(func, args, kwargs)
    except NotImplementedError as e:
        raise EngineError(f"no meta kernel for {func}: {e}") from e
    except Exception as e:
        raise _MetaError(legit(e)) from e


def do_view(func, args, kwargs):
    base = args[0]
    if not isinstance(base, SymTensor):
        if func._schema.name in ("aten::lift_fresh",):
            return sym_copy(base)
        if isinstance(base, torch.Tensor):
            out = func(*args, **kwargs)
            return out
        raise EngineError(f"view op {func} on {type(base)}")
    n = base._st.arr.shape[0]
    mb = torch.empty(n, dtype=base.dtype, device="meta")
    mb = torch.as_strided(mb, *_geom(base))
    if func._schema.name in ("aten::lift_fresh", "aten::detach", "aten::alias"):
        out = mb
    else:
        try:
            out = func(mb, *args[1:], **kwargs)
        except Exception as e:
            raise _MetaError(legit(e)) from e
    def wrap(m):
        return SymTensor(base._st, m.shape, m.stride(), m.storage_offset(), m.dtype)
    if isinstance(out, torch.Tensor):
        if out.dtype != base.dtype:
            raise EngineError(f"dtype-changing view {func}")
        return wrap(out)
    return type(out)(wrap(m) for m in out) if isinstance(out, (list, tuple)) else out


def sym_copy(t):
    return from_vals(lift_plain(t), t.dtype)


def do_inplace(func, args, kwargs):
    name = func._schema.name[:-1]
    ns, op = name.split("::")
    packet = getattr(getattr(torch.ops, ns), op, None)
    self_ = args[0]
    f = None
    if packet is not None:
        ov = func._schema.overload_name or "default"
        f = getattr(packet, ov, None)
        if f is None and ov.endswith("_"):
            f = getattr(packet, ov[:-1], None)
        if op in ("pow",):
            f = {"Scalar": packet.Tensor_Scalar, "Tensor": packet.Tensor_Tensor}[ov]
    if f is None:
        raise EngineError(f"no functional variant of {func}")
    r = dispatch(f, args, kwargs)
    v = vals(r)
    if tuple(v.shape) != tuple(self_.shape):
        try:
            v = np.broadcast_to(v, tuple(self_.shape))
            if v.shape != tuple(self_.shape):
                raise ValueError
        except ValueError:
            raise _MetaError(legit(RuntimeError(f"output with shape {list(self_.shape)} doesn't match the broadcast shape {list(v.shape)}")))
    write(self_, v)
    return self_


def do_out(func, args, kwargs):
    """out-variants: the functional operator (same arguments), then a write"""
    outs = [a.name for a in func._schema.arguments if a.alias_info is not None and a.alias_info.is_write]
    ns, op = func._schema.name.split("::")
    packet = getattr(getattr(torch.ops, ns), op, None)
    if packet is not None and all(o in kwargs for o in outs):
        want = [(a.name, str(a.type)) for a in func._schema.arguments if a.name not in outs]
        for ov in packet.overloads():
            f = getattr(packet, ov)
            if [(a.name, str(a.type)) for a in f._schema.arguments] == want and not any(a.alias_info is not None and a.alias_info.is_write for a in f._schema.arguments):
                targets = [kwargs[o] for o in outs]
                r = dispatch(f, args, {k: v for k, v in kwargs.items() if k not in outs})
                for t, v in zip(targets, [r] if isinstance(r, torch.Tensor) else r):
                    if tuple(t.shape) != tuple(v.shape):
                        raise EngineError("out= of another shape")
                    write(t, vals(v))
                return targets[0] if len(targets) == 1 else tuple(targets)
    raise EngineError(f"out-variant {func} is not interpreted")


def do_move(func, args, kwargs):
    """pure data movement: run the real kernel on position labels"""
    m = meta(func, args, kwargs)
    flat, spec = tree_flatten((args, kwargs))
    table = [X.ZERO]
    new = []
    fillers = []
    for a in flat:
        if isinstance(a, torch.Tensor) and not (func._schema.name == "aten::index_select" and a.dtype in (torch.int64, torch.int32) and a is args[2]):
            v = vals(a)
            start = len(table)
            table.extend(v.reshape(-1).tolist())
            lab = torch.arange(start, start + v.size, dtype=torch.int64).reshape(tuple(a.shape))
            new.append(lab)
        elif isinstance(a, torch.Tensor):
            new.append(concrete_index(a))
        else:
            new.append(a)
    args2, kw2 = torch.utils._pytree.tree_unflatten(new, spec)
    if func._schema.name == "aten::constant_pad_nd":
        fill = E.lift(args[2]) if len(args) > 2 else X.ZERO
        table.append(fill)
        args2 = list(args2)[:2] + [len(table) - 1]
    kw2 = {k: v for k, v in kw2.items() if k not in ("dtype", "device")}
    out = func(*args2, **kw2)
    tab = np.empty(len(table), dtype=object)
    for i, x in enumerate(table):
        tab[i] = x
    def wrap(lab, mt):
        v = tab[lab.contiguous().numpy()] if lab.ndim else _np0(tab[int(lab)])
        return from_vals(cast_arr(v, mt.dtype), mt.dtype, tuple(mt.stride()))
    if isinstance(out, torch.Tensor):
        return wrap(out, m)
    return type(out)(wrap(a, b) for a, b in zip(out, m))


def _np0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def concrete_index(t):
    """index tensor as real int64 tensor, forking on symbolic entries"""
    if not isinstance(t, SymTensor):
        return t
    p = to_plain(t)
    if p is not None:
        return p
    v = vals(t)
    flat = [int_of(x) if t.dtype != torch.bool else engine.fork(E.to_bool(x)) for x in v.reshape(-1)]
    return torch.tensor(flat, dtype=t.dtype).reshape(tuple(t.shape))


def tensors_in(args, kwargs):
    flat, _ = tree_flatten((args, kwargs))
    return [a for a in flat if isinstance(a, torch.Tensor)]


def do_fallback(func, args, kwargs):
    """all-concrete: run the real kernel; else try a decomposition"""
    ts = tensors_in(args, kwargs)
    plain = []
    ok = True
    for t in ts:
        p = to_plain(t)
        if p is None:
            ok = False
            break
    if ok:
        conv = lambda a: to_plain(a) if isinstance(a, SymTensor) else a
        a2, k2 = tree_map(conv, (args, kwargs))
        try:
            out = func(*a2, **k2)
        except Exception as e:
            raise _MetaError(legit(e)) from e
        return tree_map(lambda o: sym_copy(o) if isinstance(o, torch.Tensor) and o.numel() <= MAX_LIFT else o, out)
    from torch._decomp import decomposition_table
    d = decomposition_table.get(func)
    if d is not None:
        engine.note_decomp(func._schema.name)
        with SymMode():
            try:
                return d(*args, **kwargs)
            except EngineError:
                raise
    r = func.decompose(*args, **kwargs)
    if r is not NotImplemented:
        return r
    raise EngineError(f"operator not interpreted: {func}")


# ------------------------------------------------------------------ modes
class SymMode(TorchDispatchMode):
    """makes factory functions and ops on plain tensors produce SymTensors"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        ts = tensors_in(args, kwargs)
        if ts and not any(isinstance(t, SymTensor) for t in ts):
            big = sum(t.numel() for t in ts)
            if big > MAX_LIFT or any(t.device.type == "meta" for t in ts):
                return func(*args, **kwargs)
            if is_view_op(func) and func._schema.name != "aten::lift_fresh":
                return func(*args, **kwargs)
            if is_inplace(func) or func._schema.name in ("aten::_local_scalar_dense",):
                return func(*args, **kwargs)
        return dispatch(func, args, kwargs)


class FnMode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = getattr(func, "__name__", "")
        if kwargs.get("dtype") is SymFloat:
            kwargs = dict(kwargs, dtype=float)
        if any(a is SymFloat for a in args):
            args = tuple(float if a is SymFloat else a for a in args)
        if func is torch.tensor or func is torch.as_tensor:
            if args and contains_sym(args[0]):
                return build_tensor(args[0], kwargs.get("dtype") or (args[1] if len(args) > 1 and isinstance(args[1], torch.dtype) else None),
                                    kwargs.get("requires_grad", False))
        elif func is torch.from_numpy:
            a = args[0]
            if a.dtype == object:
                return build_tensor(a.tolist(), None, False)
        if func is torch.full or func is torch.full_like:
            fill = args[1] if len(args) > 1 else kwargs.get("fill_value")
            if isinstance(fill, SymScalar):
                kw = {k: v for k, v in kwargs.items() if k not in ("fill_value", "size", "input", "names", "out")}
                like = args[0] if args else kwargs.get("size", kwargs.get("input"))
                t = build_tensor(fill, None, False)
                kw.setdefault("dtype", t.dtype)
                r = torch.zeros(like, **kw) if func is torch.full else torch.zeros_like(like, **{k: v for k, v in kw.items() if k != "dtype" or "dtype" in kwargs})
                return r + t.to(r.dtype)
        if contains_symscalar(args) or contains_symscalar(kwargs):
            args, kwargs = tree_map(_unwrap_arg, (args, kwargs))
        if name == "__deepcopy__" and args and not isinstance(args[0], SymTensor):
            with _disable_current_modes():
                return func(*args, **kwargs)
        if name in ("quantile", "nanquantile") and args and any(isinstance(a, SymTensor) for a in list(args) + list(kwargs.values())):
            return quantile(name == "nanquantile", *args, **kwargs)
        if name == "__set__" and getattr(func, "__self__", None) is torch.Tensor.data and isinstance(args[0], SymTensor):
            src = args[1] if isinstance(args[1], SymTensor) else sym_copy(args[1])
            r = func(args[0], src.detach())
            args[0]._st = src._st
            return r
        if args and isinstance(args[0], SymTensor):
            if name == "item":
                return sym_item(args[0])
            if name == "tolist":
                return sym_tolist(args[0])
            if name in ("numpy",):
                return sym_numpy(args[0])
            if name == "__bool__":
                return SymTensor.__bool__(args[0])
            if name == "__int__" or name == "__index__":
                return SymTensor.__int__(args[0])
            if name == "__float__":
                return SymTensor.__float__(args[0])
            if name == "__format__":
                return "<sym>"
            if name == "is_pinned":
                return False
            if name == "data_ptr":
                return id(args[0]._st)
        return func(*args, **kwargs)


def quantile(skip_nan, input, q, dim=None, keepdim=False, *, interpolation="linear", out=None):
    """torch.quantile / nanquantile through sort, select and linear interpolation"""
    if not isinstance(q, torch.Tensor):
        q = torch.tensor(float(q))
    qs = to_plain(q) if isinstance(q, SymTensor) else q
    if qs is None or out is not None or not isinstance(input, torch.Tensor):
        raise EngineError("quantile at symbolic levels")
    qs = qs.to(torch.float64)
    if interpolation not in ("linear", "lower", "higher", "nearest", "midpoint"):
        raise RuntimeError(f"quantile() interpolation must be one of linear, lower, higher, midpoint or nearest, but got {interpolation}")
    if bool(((qs < 0) | (qs > 1)).any()):
        raise RuntimeError("quantile() q values must be in the range [0, 1]")
    if dim is None:
        shape1 = [1] * input.ndim
        input, d = input.reshape(-1), 0
    else:
        d = dim % max(input.ndim, 1)
        shape1 = None
    s = torch.sort(input, dim=d).values
    n = input.shape[d]
    if n == 0:
        raise RuntimeError("quantile() input tensor must be non-empty")

    def at(src, k, level):
        pos = level * (k - 1)
        lo = int(np.floor(pos))
        hi = int(np.ceil(pos))
        if interpolation in ("lower", "higher", "nearest"):
            return src.select(d, dict(lower=lo, higher=hi, nearest=int(np.rint(pos)))[interpolation])
        a, b = src.select(d, lo), src.select(d, hi)
        if interpolation == "midpoint":
            return a + 0.5 * (b - a) if hi != lo else a
        w = np.float32(pos - lo) if input.dtype == torch.float32 else pos - lo
        return a + float(w) * (b - a) if hi != lo else a
    nans = torch.isnan(input)
    parts = []
    for level in qs.reshape(-1).tolist():
        if skip_nan:
            # the number of observed values in each column decides the position
            cnt = (~nans).sum(dim=d)
            r = torch.full_like(s.select(d, 0), float("nan"))
            for k in range(1, n + 1):
                r = torch.where(cnt == k, at(s, k, level), r)
        else:
            r = torch.where(nans.any(dim=d), torch.full_like(s.select(d, 0), float("nan")), at(s, n, level))
        if shape1 is not None:
            r = r.reshape(shape1) if keepdim else r
        elif keepdim:
            r = r.unsqueeze(d)
        parts.append(r)
    return torch.stack(parts, 0) if q.ndim else parts[0]


def contains_sym(x):
    if isinstance(x, (SymTensor, SymScalar)):
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_sym(y) for y in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(contains_sym(y) for y in x.reshape(-1))
    return False


def contains_symscalar(x):
    if isinstance(x, SymScalar):
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_symscalar(y) for y in x)
    if isinstance(x, dict):
        return any(contains_symscalar(y) for y in x.values())
    return False


def build_tensor(x, dtype, requires_grad):
    kinds = set()

    def rec(y):
        if isinstance(y, SymTensor):
            kinds.add(y.dtype)
            return vals(y)
        if isinstance(y, torch.Tensor):
            kinds.add(y.dtype)
            return lift_plain(y)
        if isinstance(y, SymScalar):
            kinds.add(torch.bool if type(y._elem) is X.Expr and X.is_bool(y._elem) else torch.get_default_dtype())
            return _np0(y._elem)
        if isinstance(y, (list, tuple, np.ndarray)):
            parts = [rec(z) for z in y]
            if not parts:
                return np.empty((0,), dtype=object)
            out = np.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                out[i] = p if p.ndim else p[()]
            return out
        kinds.add(torch.bool if isinstance(y, bool) else torch.int64 if isinstance(y, (int, np.integer)) else torch.get_default_dtype())
        return _np0(E.lift(y))
    v = rec(x)
    if dtype is None:
        dtype = functools.reduce(torch.promote_types, kinds) if kinds else torch.get_default_dtype()
    t = from_vals(cast_arr(v, dtype), dtype)
    if requires_grad:
        t.requires_grad_(True)
    return t


def symbolic_tensor(v, dtype=torch.float32):
    return from_vals(cast_arr(np.asarray(v, dtype=object), dtype), dtype)


from . import ops  # noqa: E402,F401  (registers handlers)


class _FloatType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymScalar))

    def __subclasscheck__(cls, x):
        return issubclass(x, float)

    def __eq__(cls, x):
        return x is cls or x is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FloatType):
    """stands for the builtin float inside the library while it runs symbolically: float(t) of a symbolic value stays symbolic"""
    fromhex = float.fromhex

    def __new__(cls, x=0.0):
        if isinstance(x, SymScalar):
            return x
        if isinstance(x, SymTensor) and x.numel() == 1:
            return sym_item(x)
        return float(x)


@contextlib.contextmanager
def library_float():
    import sys
    mods = [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "irtorch" and m is not None]
    for m in mods:
        m.__dict__.setdefault("float", SymFloat)
    try:
        yield
    finally:
        for m in mods:
            if m.__dict__.get("float") is SymFloat:
                del m.__dict__["float"]


@contextlib.contextmanager
def symbolic_math():
    """math.isnan and friends accept symbolic scalars (they are C functions that would ask for a float)"""
    import math

    def lift(x):
        if isinstance(x, SymScalar):
            return x._elem
        if isinstance(x, SymTensor) and x.numel() == 1:
            return vals(x).reshape(-1)[0]
        return None
    def scaled_log(base):
        return lambda e: E.div(E.log(e), E.lift(old["log"](base)))
    table = dict(isnan=E.isnan, isinf=E.isinf, exp=E.exp, log=E.log, sqrt=E.sqrt, fabs=E.abs_, tanh=E.tanh, erf=E.erf,
                 log2=scaled_log(2.0), log10=scaled_log(10.0), log1p=lambda e: E.log(E.add(X.ONE, e)),
                 expm1=lambda e: E.sub(E.exp(e), X.ONE), erfc=lambda e: E.sub(X.ONE, E.erf(e)),
                 cos=E.cos, sin=E.sin, atan=E.atan,
                 floor=E.floor, ceil=E.ceil, trunc=E.trunc,
                 isfinite=lambda e: X.not_(X.or_(E.to_bool(E.isnan(e)), E.to_bool(E.isinf(e)))))
    old = {k: getattr(math, k) for k in table}
    numpy_in = torch.from_numpy

    def from_numpy(a):
        return build_tensor(a.tolist(), None, False) if isinstance(a, np.ndarray) and a.dtype == object else numpy_in(a)

    def wrap(k, f):
        def g(x, *a):
            if a:
                return old[k](x, *a)
            e = lift(x)
            if e is None or concrete_value(e) is not None:
                return old[k](x)
            return int_of(f(e)) if k in ("floor", "ceil", "trunc") else SymScalar(f(e))
        return g

    def pow_(x, y):
        a, b = lift(x), lift(y)
        if a is None and b is None:
            return old["pow"](x, y)
        return SymScalar(E.pow_(E.lift(x) if a is None else a, E.lift(y) if b is None else b))

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        x, y = lift(a), lift(b)
        if x is None and y is None:
            return old["isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        x, y = E.lift(a) if x is None else x, E.lift(b) if y is None else y
        bound = E.maximum(E.mul(E.lift(rel_tol), E.maximum(E.abs_(x), E.abs_(y))), E.lift(abs_tol))
        return SymScalar(X.or_(E.to_bool(E.eq(x, y)), E.to_bool(E.le(E.abs_(E.sub(x, y)), bound))))
    old["pow"], old["isclose"] = math.pow, math.isclose
    try:
        math.pow, math.isclose = pow_, isclose
        for k, f in table.items():
            setattr(math, k, wrap(k, f))
        torch.from_numpy = from_numpy
        yield
    finally:
        torch.from_numpy = numpy_in
        for k, f in old.items():
            setattr(math, k, f)
