"""Harness runner: symbolic exploration, solver verdicts, replay on the real
code, encoding validation, evidence."""
from __future__ import annotations
import contextlib
import copy
import importlib
import io
import json
import logging
import math
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import types
from fractions import Fraction
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes
from . import expr as X
from . import poly as P
from . import solve as S
from . import elem as E
from . import tensor as T
from .elem import EngineError
from .engine import engine, PathEnd, draw_name
from .tensor import SymTensor, SymScalar

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


TRACE = float(os.environ.get("VERIF_TRACE", "0"))


class Mismatch(Exception):
    pass


class TimeLimit(BaseException):
    """a computation exceeded its wall-clock allowance (not an Exception: library code must not swallow it)"""


def _alarm(signum, frame):
    raise TimeLimit()


@contextlib.contextmanager
def time_limit(seconds):
    """raise TimeLimit in the main thread after the given number of seconds"""
    try:
        old = signal.signal(signal.SIGALRM, _alarm)
    except ValueError:          # not the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, max(1, seconds), 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Skip(BaseException):
    """concrete run outside the harness's assumptions"""


class Obligation:
    __slots__ = ("label", "kind", "a", "b", "pc", "tol", "path", "bad_exc")

    def __init__(self, label, kind, a, b, pc, tol, path):
        self.label, self.kind, self.a, self.b, self.pc, self.tol, self.path = label, kind, a, b, pc, tol, path
        self.bad_exc = None


# ---------------------------------------------------------------- contexts
class CtxBase:
    def __init__(self, opts):
        self.opts = opts
        self.decl = {}

    def reals(self, name, shape, lo=-3, hi=3, **kw):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(tuple(shape), dtype=object)
        for ix in np.ndindex(*o.shape):
            o[ix] = self.real(name + "".join(f"_{i}" for i in ix), lo, hi, **kw)
        return o

    def ints(self, name, shape, lo, hi):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(tuple(shape), dtype=object)
        for ix in np.ndindex(*o.shape):
            h = hi[ix[-1]] if isinstance(hi, (list, tuple)) else hi
            o[ix] = self.int(name + "".join(f"_{i}" for i in ix), lo, h)
        return o

    def theta(self, n, d, lo=-3, hi=3, name="th"):
        v = self.reals(name, (n, d), lo, hi)
        return self.tensor(v), v

    def sum(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def prod(self, xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def sigmoid(self, x):
        return 1 / (1 + self.exp(-x))

    def softmax(self, xs):
        e = [self.exp(x) for x in xs]
        s = self.sum(e)
        return [x / s for x in e]

    def possible(self, c, label):
        """on at least one execution that reaches this label the condition is true (e.g. a random outcome that must be able to occur)"""
        self._possible(c, label)

    def eqs(self, a, b, label, tol=1e-3):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.prove(False, label + f": shape {a.shape} instead of {b.shape}")
            return
        for ix in np.ndindex(*a.shape):
            self.eq(a[ix], b[ix], f"{label}{list(ix)}", tol=tol)

    def shape(self, t, expected, label):
        self.prove(tuple(t.shape) == tuple(expected), f"{label}: shape {tuple(expected)}")

    def build(self, f, seed=0):
        """construct a module with plain tensors (its parameters are replaced afterwards)"""
        with _disable_current_modes():
            st = torch.random.get_rng_state()
            torch.manual_seed(seed)
            try:
                return f()
            finally:
                torch.random.set_rng_state(st)

    @staticmethod
    def _owner(mod, name):
        *path, leaf = name.split(".")
        for q in path:
            mod = getattr(mod, q)
        return mod, leaf


class SymCtx(CtxBase):
    symbolic = True

    def __init__(self, opts):
        super().__init__(opts)
        self.obls = []
        self.maybe = []
        self.path_no = 0
        self.assumptions_text = []
        self.reached = 0

    def real(self, name, lo=-3, hi=3, lo_open=False, hi_open=False):
        f = lambda z: None if z is None else (E.lift(z).args if not isinstance(z, Fraction) else z)
        return SymScalar(X.var(name, f(lo), f(hi), lo_open=lo_open, hi_open=hi_open))

    def int(self, name, lo, hi):
        if lo == hi:
            return SymScalar(X.const(lo))
        return SymScalar(X.var(name, lo, hi, integer=True))

    def bool(self, name):
        return SymScalar(X.bvar(name))

    def tensor(self, v, dtype=torch.float32):
        v = np.asarray(v, dtype=object)
        w = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(*v.shape):
            w[ix] = E.lift(v[ix])
        return T.symbolic_tensor(w, dtype)

    def missing(self, cond, value, code=math.nan):
        """code if cond else value"""
        return SymScalar(E.where(E.lift(cond), E.lift(code), E.lift(value)))

    def assume(self, c):
        engine.assume(E.to_bool(E.lift(c)))

    def _add(self, kind, a, b, label, tol):
        self.obls.append(Obligation(label, kind, a, b, list(engine.pc), tol, self.path_no))

    def prove(self, c, label, tol=1e-3):
        self._add("true", E.to_bool(E.lift(c)), None, label, tol)

    def eq(self, a, b, label, tol=1e-3):
        self._add("eq", E.to_num(E.lift(a)), E.to_num(E.lift(b)), label, tol)

    def _possible(self, c, label):
        self.maybe.append(Obligation(label, "true", X.not_(E.to_bool(E.lift(c))), None, list(engine.pc), 0, self.path_no))

    def le(self, a, b, label, tol=1e-3):
        self._add("le", E.to_num(E.lift(a)), E.to_num(E.lift(b)), label, tol)

    def lt(self, a, b, label, tol=0.0):
        self._add("lt", E.to_num(E.lift(a)), E.to_num(E.lift(b)), label, tol)

    def finite(self, a, label):
        self._add("true", E.fin(E.lift(a)), None, label + " is finite", 0)

    def vals(self, t):
        if not isinstance(t, torch.Tensor):
            v = np.asarray(t, dtype=object)
            return v
        v = T.vals(t)
        o = np.empty(v.shape, dtype=object)
        for ix in np.ndindex(*v.shape):
            o[ix] = SymScalar(v[ix])
        return o

    def isnan(self, x):
        return SymScalar(E.isnan(E.lift(x)))

    def isinf(self, x):
        return SymScalar(E.isinf(E.lift(x)))

    def ite(self, c, a, b):
        return SymScalar(E.where(E.lift(c), E.lift(a), E.lift(b)))

    def and_(self, *cs):
        return SymScalar(X.and_(*[E.to_bool(E.lift(c)) for c in cs]))

    def or_(self, *cs):
        return SymScalar(X.or_(*[E.to_bool(E.lift(c)) for c in cs]))

    def not_(self, c):
        return SymScalar(X.not_(E.to_bool(E.lift(c))))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def exp(self, x):
        return SymScalar(E.exp(E.lift(x)))

    def log(self, x):
        return SymScalar(E.log(E.lift(x)))

    def sqrt(self, x):
        return SymScalar(E.sqrt(E.lift(x)))

    def abs(self, x):
        return SymScalar(E.abs_(E.lift(x)))

    def cos(self, x):
        return SymScalar(E.cos(E.lift(x)))

    def max(self, a, b):
        return SymScalar(E.maximum(E.lift(a), E.lift(b)))

    def min(self, a, b):
        return SymScalar(E.minimum(E.lift(a), E.lift(b)))

    def branch(self, c):
        """fork the exploration on c"""
        return engine.fork(E.to_bool(E.lift(c)))

    def concretize(self, i):
        return T.int_of(E.lift(i))

    def jac(self, f, x):
        """exact derivative of f's outputs w.r.t. x (a tensor of distinct variables), by
        symbolic differentiation.  result shape: out.shape + x.shape"""
        with torch.no_grad():
            y = f(x)
        yv, xv = T.vals(y), T.vals(x)
        o = np.empty(yv.shape + xv.shape, dtype=object)
        for i in np.ndindex(*yv.shape):
            e = yv[i]
            self._add("true", E.fin(e), None, f"the differentiated value {list(i)} is finite", 0)
            e = E.parts(e)[0]
            for j in np.ndindex(*xv.shape):
                if xv[j].op != "v":
                    raise EngineError("jac needs variables")
                o[i + j] = SymScalar(X.diff(e, xv[j]))
        return o

    def symbolize(self, mod, prefix="p", lo=-3, hi=3, only=None, ranges=None):
        for n, p in list(mod.named_parameters()):
            own, leaf = self._owner(mod, n)
            if only is not None and not any(n == o or n.startswith(o + ".") for o in only):
                own._parameters[leaf] = torch.nn.Parameter(T.sym_copy(p.detach()), requires_grad=p.requires_grad)
                continue
            l, h = (ranges or {}).get(n, (lo, hi))
            v = np.empty(tuple(p.shape), dtype=object)
            for ix in np.ndindex(*v.shape):
                v[ix] = X.var(f"{prefix}.{n}" + "".join(f"_{i}" for i in ix), l, h)
            own._parameters[leaf] = torch.nn.Parameter(T.symbolic_tensor(v, p.dtype), requires_grad=p.requires_grad)
        for n, b in list(mod.named_buffers()):
            own, leaf = self._owner(mod, n)
            if b is not None:
                own._buffers[leaf] = T.sym_copy(b)
        return mod

    def assign(self, mod, n, values):
        """replace a parameter or buffer by given (symbolic) values"""
        own, leaf = self._owner(mod, n)
        if leaf in own._parameters:
            own._parameters[leaf] = torch.nn.Parameter(self.tensor(values), requires_grad=own._parameters[leaf].requires_grad)
        else:
            own._buffers[leaf] = self.tensor(values)

    def param(self, mod, n):
        own, leaf = self._owner(mod, n)
        return self.vals(own._parameters[leaf])

    def outside(self):
        return _disable_current_modes()

    def stub_calls(self, name):
        return [i for n, i in engine.stub_calls if n == name]

    def draws(self, tag):
        """the random values drawn so far (tag: randn, rand, ...), in order"""
        return [SymScalar(E.lift(v)) if not isinstance(v, SymScalar) else v for v, t in engine.randoms if t == tag]


    def categorical_draws(self):
        """random choices so far, in order: (value drawn, weight of each possible value)"""
        return [(SymScalar(v), [SymScalar(E.lift(w)) for w in ws]) for v, ws in self.stub_calls("categorical")]


class ConCtx(CtxBase):
    """the same harness on the real, unmodified library with plain tensors"""
    symbolic = False

    def __init__(self, opts, env, rng=None):
        super().__init__(opts)
        self.env = env
        self.res = []          # (label, kind, a, b, tol)
        self.maybe = []
        self.rng = rng

    def _get(self, name, lo, hi, integer, lo_open=False, hi_open=False):
        self.decl[name] = (lo, hi, integer)
        if name in self.env:
            v = self.env[name]
        elif self.rng is not None:
            if integer:
                v = self.rng.randint(int(lo), int(hi))
            else:
                l = -3.0 if lo is None else float(lo)
                h = max(3.0, l + 2) if hi is None else float(hi)
                v = l + (h - l) * (0.013 + 0.974 * self.rng.random())
                v = Fraction(round(v * 9973), 9973)
            self.env[name] = v
        else:
            v = S.default_value(name) if name in X.VARS else Fraction(0)
        return int(v) if integer else float(v)

    def real(self, name, lo=-3, hi=3, lo_open=False, hi_open=False):
        return self._get(name, lo, hi, False)

    def int(self, name, lo, hi):
        return self._get(name, lo, hi, True)

    def bool(self, name):
        if name not in self.env:
            self.env[name] = bool(self.rng.random() < 0.5) if self.rng is not None else False
        return bool(self.env[name])

    def tensor(self, v, dtype=torch.float32):
        v = np.asarray(v, dtype=object)
        flat = [float(x) if dtype.is_floating_point else (bool(x) if dtype == torch.bool else int(x)) for x in v.reshape(-1)]
        return torch.tensor(flat, dtype=dtype).reshape(v.shape)

    def missing(self, cond, value, code=math.nan):
        return code if cond else value

    def assume(self, c):
        if not c:
            raise Skip()

    def prove(self, c, label, tol=1e-3):
        self.res.append((label, "true", bool(c), None, tol))

    def eq(self, a, b, label, tol=1e-3):
        self.res.append((label, "eq", float(a), float(b), tol))

    def _possible(self, c, label):
        self.maybe.append((label, bool(c)))

    def le(self, a, b, label, tol=1e-3):
        self.res.append((label, "le", float(a), float(b), tol))

    def lt(self, a, b, label, tol=0.0):
        self.res.append((label, "lt", float(a), float(b), tol))

    def finite(self, a, label):
        self.res.append((label + " is finite", "true", math.isfinite(float(a)), None, 0))

    def vals(self, t):
        if not isinstance(t, torch.Tensor):
            return np.asarray(t, dtype=object)
        t = t.detach()
        flat = t.reshape(-1).tolist()
        o = np.empty(len(flat), dtype=object)
        for i, x in enumerate(flat):
            o[i] = x
        return o.reshape(tuple(t.shape))

    def isnan(self, x):
        return isinstance(x, (float, np.floating)) and math.isnan(x)

    def isinf(self, x):
        return isinstance(x, (float, np.floating)) and math.isinf(x)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def abs(self, x):
        return abs(x)

    def cos(self, x):
        return math.cos(x)

    def max(self, a, b):
        return math.nan if a != a or b != b else max(a, b)

    def min(self, a, b):
        return math.nan if a != a or b != b else min(a, b)

    def branch(self, c):
        return bool(c)

    def concretize(self, i):
        return int(i)

    def jac(self, f, x):
        """numeric derivative (Richardson-extrapolated central differences)"""
        with torch.no_grad():
            y0 = f(x)
            o = np.empty(tuple(y0.shape) + tuple(x.shape), dtype=object)
            for i in np.ndindex(*tuple(y0.shape)):
                self.finite(y0[i], f"the differentiated value {list(i)}")
            for j in np.ndindex(*tuple(x.shape)):
                def at(h):
                    z = x.clone()
                    z[j] += h
                    return f(z).double()
                h = 2e-2
                d1 = (at(h) - at(-h)) / (2 * h)
                d2 = (at(2 * h) - at(-2 * h)) / (4 * h)
                d = (4 * d1 - d2) / 3
                for i in np.ndindex(*tuple(y0.shape)):
                    o[i + j] = d[i].item()
        return o

    def symbolize(self, mod, prefix="p", lo=-3, hi=3, only=None, ranges=None):
        with torch.no_grad():
            for n, p in list(mod.named_parameters()):
                if only is not None and not any(n == o or n.startswith(o + ".") for o in only):
                    continue
                l, h = (ranges or {}).get(n, (lo, hi))
                for ix in np.ndindex(*tuple(p.shape)):
                    p[ix] = self._get(f"{prefix}.{n}" + "".join(f"_{i}" for i in ix), l, h, False)
        return mod

    def assign(self, mod, n, values):
        own, leaf = self._owner(mod, n)
        (own._parameters if leaf in own._parameters else own._buffers)[leaf].data = self.tensor(values)

    def param(self, mod, n):
        own, leaf = self._owner(mod, n)
        return self.vals(own._parameters[leaf])

    def outside(self):
        return contextlib.nullcontext()

    def stub_calls(self, name):
        return RandMode.calls.get(name, [])

    def draws(self, tag):
        return [v for v, t in RandMode.draws if t == tag]

    def categorical_draws(self):
        return self.stub_calls("categorical")


class RandMode(TorchDispatchMode):
    """replay: random operators return the values the solver chose"""
    calls: dict = {}
    draws: list = []

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.n = 0
        RandMode.calls = {}
        RandMode.draws = []

    def _fresh(self, shape, tag, lo, hi, integer, dtype):
        out = []
        for _ in range(int(np.prod(shape)) if len(shape) else 1):
            self.n += 1
            out.append(self.ctx._get(draw_name(tag, self.n, lo, hi), lo, hi, integer))
            RandMode.draws.append((out[-1], tag))
        return torch.tensor(out, dtype=dtype).reshape(tuple(shape))

    def __torch_dispatch__(self, func, types_, args=(), kwargs=None):
        kwargs = kwargs or {}
        n = func._schema.name
        if not n.startswith("aten::"):
            return func(*args, **kwargs)
        n = n[6:]
        dd = torch.get_default_dtype()
        if n in ("randn", "randn_like"):
            sh = tuple(args[0].shape) if n.endswith("like") else tuple(args[0])
            return self._fresh(sh, "randn", None, None, False, kwargs.get("dtype") or dd)
        if n in ("rand", "rand_like"):
            sh = tuple(args[0].shape) if n.endswith("like") else tuple(args[0])
            return self._fresh(sh, "rand", 0, 1, False, kwargs.get("dtype") or dd)
        if n in ("normal_", "normal_functional"):
            mean = args[1] if len(args) > 1 else kwargs.get("mean", 0.0)
            std = args[2] if len(args) > 2 else kwargs.get("std", 1.0)
            r = mean + std * self._fresh(tuple(args[0].shape), "randn", None, None, False, args[0].dtype)
            if n == "normal_":
                return args[0].copy_(r)
            return r
        if n == "normal":
            mean, std = args[0], args[1]
            if len(args) > 2 and isinstance(args[2], (list, tuple)):
                sh = tuple(args[2])
            else:
                sh = np.broadcast_shapes(getattr(mean, "shape", ()), getattr(std, "shape", ()))
            return mean + std * self._fresh(sh, "randn", None, None, False, dd)
        if n in ("uniform_", "uniform"):
            lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
            hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
            r = self._fresh(tuple(args[0].shape), "rand", lo, hi, False, args[0].dtype)
            return args[0].copy_(r) if n.endswith("_") else r
        if n == "exponential_":
            return args[0].copy_(self._fresh(tuple(args[0].shape), "randexp", 0, None, False, args[0].dtype))
        if n == "randint":
            if func._schema.overload_name.startswith("low"):
                lo, hi, size = args[:3]
            else:
                lo, hi, size = 0, args[0], args[1]
            return self._fresh(tuple(size), "randint", int(lo), int(hi) - 1, True, kwargs.get("dtype") or torch.int64)
        if n == "randperm":
            k = int(args[0])
            names = [draw_name("perm", self.n + 1 + i, 0, max(k - 1, 0)) for i in range(k)]
            if not all(x in self.ctx.env for x in names):
                if self.ctx.rng is not None:
                    p = list(range(k))
                    self.ctx.rng.shuffle(p)
                    for x, v in zip(names, p):
                        self.ctx.env[x] = v
                else:
                    used = {int(self.ctx.env[x]) for x in names if x in self.ctx.env}
                    rest = [i for i in range(k) if i not in used]
                    for x in names:
                        if x not in self.ctx.env:
                            self.ctx.env[x] = rest.pop(0)
            return self._fresh((k,), "perm", 0, max(k - 1, 0), True, torch.int64)
        if n == "multinomial":
            p, k = args[0], int(args[1])
            rep = bool(args[2]) if len(args) > 2 else kwargs.get("replacement", False)
            rows = p.reshape(-1, p.shape[-1])
            RandMode.calls.setdefault("torch.multinomial", []).append([rows.reshape(-1).tolist(), k, rep])
            out = []
            for r in range(rows.shape[0]):
                used = []
                for _ in range(k):
                    nm = draw_name("multinomial", self.n + 1, 0, rows.shape[1] - 1)
                    allowed = [c for c in range(rows.shape[1]) if rows[r, c] > 0 and (rep or c not in used)]
                    if nm not in self.ctx.env or (int(self.ctx.env[nm]) not in allowed and self.ctx.rng is not None):
                        self.ctx.env[nm] = self.ctx.rng.choice(allowed) if self.ctx.rng is not None else allowed[0]
                    self.n += 1
                    v = int(self.ctx.env[nm])
                    if v not in allowed:
                        raise Skip()
                    used.append(v)
                    out.append(v)
                    RandMode.calls.setdefault("categorical", []).append((v, rows[r].tolist()))
            t = torch.tensor(out, dtype=torch.int64).reshape(rows.shape[0], k)
            return t if p.dim() > 1 else t[0]
        if n in ("bernoulli", "bernoulli_"):
            p = args[1] if len(args) > 1 else kwargs.get("p")
            if isinstance(p, torch.Generator) or p is None:
                p = 0.5 if "float" in func._schema.overload_name else args[0]
            ps = (p if isinstance(p, torch.Tensor) else torch.tensor(float(p))).expand(tuple(args[0].shape)).reshape(-1).tolist()
            out = []
            for q in ps:
                nm = draw_name("bern", self.n + 1, 0, 1)
                allowed = [c for c in (0, 1) if (q, 1 - q)[1 - c] > 0]
                if nm not in self.ctx.env or (int(self.ctx.env[nm]) not in allowed and self.ctx.rng is not None):
                    self.ctx.env[nm] = self.ctx.rng.choice(allowed) if self.ctx.rng is not None else allowed[0]
                self.n += 1
                v = int(self.ctx.env[nm])
                if v not in allowed:
                    raise Skip()
                out.append(v)
                RandMode.calls.setdefault("categorical", []).append((v, [1 - q, q]))
            r = torch.tensor(out, dtype=args[0].dtype).reshape(tuple(args[0].shape))
            return args[0].copy_(r) if n.endswith("_") else r
        return func(*args, **kwargs)


# ---------------------------------------------------------------- harness registry
class Harness:
    def __init__(self, name, fn, tier="quick", timeout=120, max_paths=400, validate=2, qtimeout=8000, budget=3000,
                 rtol=1e-3, float_range=False, known=None):
        self.name, self.fn, self.tier, self.timeout, self.max_paths = name, fn, tier, timeout, max_paths
        self.validate, self.qtimeout, self.budget, self.rtol = validate, qtimeout, budget, rtol
        self.float_range = float_range
        self.known = known


REG: list = []
KNOWN: list = []


def add(name, fn, **opts):
    h = Harness(name, fn, **opts)
    h.module = sys._getframe(1).f_globals["__name__"]
    REG.append(h)


# ---------------------------------------------------------------- numeric checks
def numerically_fails(kind, a, b, tol, rtol):
    """does the obligation fail clearly (beyond tolerance) for these numbers?"""
    if kind == "true":
        return not a
    na, nb = a != a, b != b
    if kind == "eq":
        if na or nb:
            return na != nb
        if math.isinf(a) or math.isinf(b):
            return a != b
        return abs(a - b) > tol + rtol * max(abs(a), abs(b))
    if na or nb:
        return True
    if kind == "le":
        return a > b + tol + rtol * (0 if math.isinf(b) else abs(b))
    if kind == "lt":
        return a >= b + tol
    raise AssertionError(kind)


def elem_num(e, ev):
    """numeric value of an element given an Expr->value evaluator"""
    if type(e) is E.Ext:
        if ev(e.nan):
            return math.nan
        if ev(e.pinf):
            return math.inf
        if ev(e.ninf):
            return -math.inf
        return ev(e.v)
    return ev(e)


def elem_roots(e):
    if e is None:
        return []
    if type(e) is E.Ext:
        return [e.v, e.nan, e.pinf, e.ninf]
    return [e]


def negation(ob, delta):
    """formula: the obligation fails (by more than delta)"""
    if ob.kind == "true":
        return X.not_(ob.a)
    a, an, ap, am = E.parts(ob.a)
    b, bn, bp, bm = E.parts(ob.b)
    d = X.const(Fraction(delta).limit_denominator(10 ** 9)) if delta else X.ZERO
    both = X.and_(E.fin(ob.a), E.fin(ob.b))
    if ob.kind == "eq":
        special = X.or_(X.not_(X.iff(an, bn)), X.not_(X.iff(ap, bp)), X.not_(X.iff(am, bm)))
        if delta:
            df = X.or_(X.lt(d, X.sub(a, b)), X.lt(d, X.sub(b, a)))
        else:
            df = X.not_(X.eq(a, b))
        return X.or_(special, X.and_(both, df))
    bad = X.or_(an, bn)
    if ob.kind == "le":
        sp = X.or_(bad, X.and_(ap, X.not_(bp)), X.and_(bm, X.not_(am)))
        return X.or_(sp, X.and_(both, X.lt(X.add(b, d), a)))
    sp = X.or_(bad, ap, bm, X.and_(am, bm))
    return X.or_(sp, X.and_(both, X.le(X.add(b, d), a)))


# ---------------------------------------------------------------- one harness
class Outcome:
    def __init__(self, name):
        self.name = name
        self.status = "ok"            # ok | violation | error
        self.detail = ""
        self.violations = []          # dicts
        self.obligations = 0
        self.discharged = 0
        self.tolerance = 0            # discharged within tolerance only
        self.degraded = []
        self.paths = 0
        self.forks = 0
        self.stats = {}
        self.functions = []
        self.validated = 0
        self.samples = []
        self.vars = 0
        self.wall = 0.0
        self.decomps = []
        self.reach = False
        self.known = 0
        self.bounds = {}

    def as_dict(self):
        return self.__dict__


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    oe = sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old
        sys.stderr = oe


class FnTrace:
    """names of the library functions executed (sys.monitoring: negligible cost)"""
    TOOL = 4

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif")
        def start(code, off):
            if "/irtorch/" in code.co_filename and "/site-packages/" not in code.co_filename:
                self.seen.add(os.path.relpath(code.co_filename, REPO) + ":" + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, start)
        m.set_events(self.TOOL, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


def concrete_run(h, env, rng=None):
    """run the harness on the real code.  -> (results, exception, env)"""
    ctx = ConCtx({}, env, rng)
    torch.manual_seed(0)
    random.seed(0)
    np.random.seed(0)
    exc = None
    with quiet():
        try:
            with RandMode(ctx):
                h.fn(ctx)
        except Skip:
            exc = "skip"
        except EngineError:
            raise
        except Exception as e:
            exc = e
    return ctx, exc


def explore(h, out, deadline):
    """symbolic exploration of every path; returns the list of obligations"""
    X.reset()
    P.reset()
    S._feas_cache.clear()
    engine.reset_paths()
    engine.active = True
    E.FLOAT_RANGE[0] = h.float_range
    obls = []
    out_maybe = []
    paths = []
    todo = [[]]
    fnt = FnTrace()
    with fnt:
        while todo:
            prefix = todo.pop()
            engine.start_path(prefix)
            engine.pending = []
            ctx = SymCtx({})
            ctx.path_no = out.paths
            exc = None
            ended = False
            torch.manual_seed(0)
            random.seed(0)
            np.random.seed(0)
            with quiet():
                try:
                    with T.FnMode(), T.SymMode(), T.symbolic_math(), T.library_float():
                        h.fn(ctx)
                except PathEnd:
                    ended = True
                except EngineError as e:
                    raise
                except Exception as e:
                    exc = e
                    exc_tb = traceback.format_exc()
            out.paths += 1
            for c in engine.pending:
                todo.append(c)
            obls += ctx.obls
            out_maybe += ctx.maybe
            if exc is not None:
                ob = Obligation(f"raises {type(exc).__name__}: {str(exc)[:200]}", "true", X.FALSE, None, list(engine.pc), 0, ctx.path_no)
                ob.bad_exc = exc_tb
                obls.append(ob)
            if not ended:
                paths.append((ctx.path_no, list(engine.pc), ctx.obls, exc))
            if out.paths > h.max_paths:
                raise EngineError(f"more than {h.max_paths} paths")
            if time.time() > deadline:
                raise EngineError(f"time budget exhausted after {out.paths} paths")
    out.forks = engine.forks
    out.functions = sorted(fnt.seen)
    out.decomps = sorted(engine.decomps)
    return obls, paths, out_maybe


def occurs(h, label, rng, runs=300):
    """does the outcome occur in runs of the real code with random inputs and draws?"""
    for _ in range(runs):
        ctx, exc = concrete_run(h, {}, rng)
        if exc is None and any(l == label and v for l, v in ctx.maybe):
            return True
    return False


def decide_possible(h, group, rng, deadline):
    """-> 'shown' (a model of the outcome was found), 'never' (unsatisfiable on every path), 'unknown'"""
    verdict = "never"
    for ob in group:
        if X.not_(ob.a) is X.FALSE:
            continue
        r = S.decide(list(ob.pc) + [X.not_(ob.a)], make_env_check(ob, h.rtol), rng=rng, timeout_ms=h.qtimeout, budget=h.budget, deadline=deadline)
        if r.verdict == "sat":
            return "shown"
        if r.verdict != "unsat":
            verdict = "unknown"
    return verdict


def make_env_check(ob, rtol):
    """(env) -> numeric confirmation with the true transcendental functions"""
    roots = list(ob.pc) + elem_roots(ob.a) + elem_roots(ob.b)
    names = X.free_vars(roots)

    def chk(env):
        e = {}
        for n in names:
            if n in env:
                e[n] = env[n]
            else:
                e[n] = S.default_value(n) if n in X.VARS else False
        try:
            r = X.evaluate(roots, e)
        except X.EvalError:
            return True          # opaque function: leave it to the replay
        m = {id(x): v for x, v in zip(roots, r)}
        if not all(m[id(c)] for c in ob.pc):
            return False
        a = elem_num(ob.a, lambda x: m[id(x)])
        b = elem_num(ob.b, lambda x: m[id(x)]) if ob.b is not None else None
        return numerically_fails(ob.kind, a, b, ob.tol, rtol)
    return chk


def decide_obligation(h, ob, out, rng, deadline):
    """-> ('holds', note) | ('cex', env) | ('unknown', note)"""
    chk = make_env_check(ob, h.rtol)
    neg = negation(ob, 0)
    def run(f, timeout, budget, dl):
        return S.decide(list(ob.pc) + [f], chk, rng=rng, timeout_ms=timeout, budget=budget, deadline=dl)
    # sums that separate into groups guarded by disjoint conditions are proved group by group
    if ob.kind == "eq" and type(ob.a) is X.Expr and type(ob.b) is X.Expr:
        groups = separate(X.sub(ob.a, ob.b))
        if len(groups) > 1:
            ok = True
            for g in groups:
                r = S.decide(list(ob.pc) + [X.not_(X.eq(g, X.ZERO))], lambda env: True, rng=rng, timeout_ms=h.qtimeout,
                             budget=h.budget, deadline=deadline)
                if r.verdict != "unsat":
                    ok = False
                    break
            if ok:
                return "holds", ""
    if ob.kind == "eq" and ob.tol and type(ob.a) is X.Expr and type(ob.b) is X.Expr:
        try:        # rounding-sized differences: bounded by interval arithmetic on the normal form
            d = P.nf(X.sub(ob.a, ob.b))
            if d.coef != 0:
                lo, _, hi, _ = P.rf_interval(d)
                if lo is not None and hi is not None and -ob.tol < lo and hi < ob.tol:
                    return "holds", "tolerance"
        except (P.TooBig, ZeroDivisionError):
            pass
    r = run(neg, h.qtimeout, h.budget, deadline)
    if r.verdict == "unsat":
        return "holds", ""
    if r.verdict == "sat":
        return "cex", r.env
    if ob.kind != "true" and ob.tol:
        neg2 = negation(ob, ob.tol)
        r2 = run(neg2, h.qtimeout, h.budget, deadline)
        if r2.verdict == "unsat":
            return "holds", "tolerance"
        if r2.verdict == "sat":
            return "cex", r2.env
    # smaller bounds: fix part of the variables to rational values
    names = sorted(n for n in X.free_vars(list(ob.pc) + [neg]) if n in X.VARS)
    for keep in (3, 2, 1):
        if len(names) <= keep:
            continue
        done = True
        for t in range(3):
            free = set(rng.sample(names, keep))
            pins = {n: S.random_value(n, rng) for n in names if n not in free}
            fs = X.subst(list(ob.pc) + [negation(ob, ob.tol if ob.kind != "true" else 0)], {X.var_ref(n): X.const(v) for n, v in pins.items()})

            def chk2(env, pins=pins):
                env.update(pins)
                return chk(env)
            r3 = S.decide(fs, chk2, rng=rng, timeout_ms=h.qtimeout, budget=h.budget, deadline=None if deadline is None else deadline + 30)
            if r3.verdict == "sat":
                r3.env.update(pins)
                return "cex", r3.env
            if r3.verdict != "unsat":
                done = False
                break
        if done:
            return "holds", f"pinned to {keep} free variables"
    return "unknown", r.note


def _cond_vars(e):
    s = set()
    for t in X.topo([e]):
        if t.op == "ite":
            s |= X.free_vars([t.args[0]])
    return s


def separate(d):
    if d.op != "add" or len(d.args[1]) < 2:
        return [d]
    groups = []      # (condvars, [terms])
    plain = [X.const(d.args[0])]
    for t, k in d.args[1]:
        cv = _cond_vars(t)
        if not cv:
            plain.append(X.scale(t, k))
            continue
        merged = [X.scale(t, k)]
        rest = []
        for g in groups:
            if g[0] & cv:
                cv = cv | g[0]
                merged += g[1]
            else:
                rest.append(g)
        groups = rest + [(cv, merged)]
    if not groups:
        return [d]
    out = [X.add(*g[1]) for g in groups]
    p = X.add(*plain)
    if p is not X.ZERO:
        out.append(p)
    return out


def env_json(env):
    return {k: (v if isinstance(v, bool) else str(Fraction(v))) for k, v in env.items()}


def env_unjson(d):
    return {k: (v if isinstance(v, bool) else Fraction(v)) for k, v in d.items()}


def replay(h, env, label=None):
    """-> (failed?, description, label of the failing obligation).  Real code, plain tensors."""
    ctx, exc = concrete_run(h, dict(env))
    if exc == "skip":
        return False, "outside assumptions", label
    if exc is not None:
        return True, f"{type(exc).__name__}: {exc}", f"raises {type(exc).__name__}: {str(exc)[:200]}"
    fails = [(l, k, a, b) for (l, k, a, b, t) in ctx.res if numerically_fails(k, a, b, t / 2, h.rtol / 2)]
    if fails:
        new = [f for f in fails if not matches_known(dict(harness=h.name, label=f[0]), KNOWN)]
        l, k, a, b = next((f for f in fails if f[0] == label), (new or fails)[0])
        return True, f"{l}: {k} fails with {a!r} vs {b!r}", l
    return False, "not reproduced", label


def validate_encoding(h, paths, out, rng):
    """push random inputs through both the real code and the encoding"""
    problems = []
    done = 0
    tries = 0
    while done < h.validate and tries < h.validate * 8:
        tries += 1
        env = {}
        ctx, exc = concrete_run(h, env, rng)
        if exc == "skip":
            continue
        env = ctx.env
        # find the symbolic path
        hit = None
        for no, pc, obls, pexc in paths:
            names = X.free_vars(pc)
            e = {n: env.get(n, S.default_value(n) if n in X.VARS else False) for n in names}
            try:
                if all(X.evaluate(pc, e)) if pc else True:
                    hit = (no, obls, pexc)
                    break
            except X.EvalError:
                continue
        if exc is not None:
            if hit is None or hit[2] is None:
                problems.append(("exception", env, f"real code raised {type(exc).__name__}: {exc}", True))
                break
            done += 1
            continue
        if hit is None:
            # the real run must be covered by some path
            problems.append(("uncovered", env, "no symbolic path covers this input", False))
            break
        no, obls, pexc = hit
        if pexc is not None:
            # the exception is decided by the solver obligation; the real code did not raise it
            problems.append(("exception", env, f"symbolic path raised {type(pexc).__name__}: {pexc}, real code did not", False))
            break
        con = ctx.res
        bad = None
        real_fail = [(l, k, a, b) for (l, k, a, b, t) in con if numerically_fails(k, a, b, t, h.rtol)]
        if len(con) != len(obls):
            bad = f"{len(con)} obligations in the real run, {len(obls)} in the encoding"
        else:
            roots = []
            for o in obls:
                roots += elem_roots(o.a) + elem_roots(o.b)
            names = X.free_vars(roots)
            e = {n: env.get(n, S.default_value(n) if n in X.VARS else False) for n in names}
            try:
                r = X.evaluate(roots, e)
            except X.EvalError:
                done += 1
                continue
            m = {id(x): v for x, v in zip(roots, r)}
            for o, (l, k, a, b, t) in zip(obls, con):
                sa = elem_num(o.a, lambda x: m[id(x)])
                sb = elem_num(o.b, lambda x: m[id(x)]) if o.b is not None else None
                if k == "true":
                    if bool(sa) != bool(a):
                        bad = f"{l}: real {a}, encoding {sa}"
                        break
                    continue
                tt = max(2e-3, 2 * t)
                if numerically_fails("eq", float(sa), float(a), tt, 4e-3) or numerically_fails("eq", float(sb), float(b), tt, 4e-3):
                    bad = f"{l}: real ({a}, {b}), encoding ({sa}, {sb})"
                    break
        if bad is not None:
            problems.append(("mismatch", env, bad, bool(real_fail)))
            break
        done += 1
    out.validated = done
    return problems


def run_harness(h, tier, seed):
    t0 = time.time()
    out = Outcome(h.name)
    rng = random.Random(seed * 7919 + (hash_str(h.name) % 100003))
    S.STATS.__init__()
    deadline = t0 + h.timeout * S.load_factor()
    try:
        with time_limit(1.5 * h.timeout + 30):
            obls, paths, maybe = explore(h, out, deadline)
        engine.active = False
        groups = {}
        for ob in maybe:
            groups.setdefault(ob.label, []).append(ob)
        out.obligations = len(obls) + len(groups)
        out.vars = len(X.VARS)
        out.bounds = {n: [str(d["lo"]), str(d["hi"])] for n, d in list(X.VARS.items())[:6]}
        if not obls and not groups:
            raise EngineError("no obligation was reached")
        problems = []
        if h.validate:
            problems = validate_encoding(h, paths, out, rng)
        # reachability: some path with obligations must be satisfiable
        for no, pc, po, pexc in paths:
            if po and (not pc or S.feasible(pc, 3000)):
                out.reach = True
                break
        if obls and not out.reach and not any(o.bad_exc for o in obls):
            raise EngineError("vacuous harness: no feasible path reaches an obligation")
        seen = {}
        for ob in obls:
            key = (ob.kind, tuple(sorted(c.id for c in ob.pc)), id(ob.a) if type(ob.a) is X.Expr else None, id(ob.b) if type(ob.b) is X.Expr else None)
            if None not in key and key in seen:
                verdict, info = seen[key]
            else:
                t1 = time.time()
                try:
                    with time_limit(min(max(10, deadline + 30 - t1), t0 + 2 * h.timeout * S.load_factor() + 60 - t1)):
                        verdict, info = decide_obligation(h, ob, out, rng, deadline)
                except TimeLimit:
                    verdict, info = "unknown", "time limit"
                seen[key] = (verdict, info)
                if TRACE and time.time() - t1 > TRACE:
                    print(f"    [{h.name}] {ob.label}: {verdict} {info if verdict != 'cex' else ''} {time.time() - t1:.2f}s", file=sys.stderr, flush=True)
            if verdict == "holds":
                out.discharged += 1
                if info == "tolerance":
                    out.tolerance += 1
                elif info:
                    out.degraded.append(f"{ob.label}: {info}")
                continue
            if verdict == "unknown":
                out.status = "error"
                out.detail = f"inconclusive: {ob.label}: {info}"
                continue
            env = info
            ok, desc, lab = replay(h, env, ob.label)
            if ok:
                v = dict(harness=h.name, label=lab, env=env_json(env), what=desc)
                out.violations.append(v)
                if matches_known(v, KNOWN):
                    out.known += 1
                    continue
                out.status = "violation"
                break
            # look for a second witness before giving up
            ok2 = False
            for t in range(4):
                e2 = S.pin_search(list(ob.pc) + [negation(ob, ob.tol if ob.kind != "true" else 0)],
                                  sorted(X.free_vars(list(ob.pc) + [negation(ob, 0)])), make_env_check(ob, h.rtol), rng)
                if e2 is None:
                    break
                ok2, desc, lab = replay(h, e2, ob.label)
                if ok2:
                    v = dict(harness=h.name, label=lab, env=env_json(e2), what=desc)
                    out.violations.append(v)
                    if matches_known(v, KNOWN):
                        out.known += 1
                    else:
                        out.status = "violation"
                    break
            if ok2:
                if out.status == "violation":
                    break
                continue
            if out.status != "violation":
                out.status = "error"
                out.detail = f"counterexample not reproduced on the real code: {ob.label} at {env_json(env)} ({desc}) {(ob.bad_exc or '')[-800:]}"
        for lab, group in groups.items():
            if out.status == "violation":
                break
            verdict = decide_possible(h, group, rng, deadline)
            if verdict == "shown":
                out.discharged += 1
            elif verdict == "never" and not occurs(h, lab, rng):
                v = dict(harness=h.name, label=lab, env={}, what="never happens: unsatisfiable on every path, and in none of 300 runs of the real code", never=True)
                out.violations.append(v)
                if not matches_known(v, KNOWN):
                    out.status = "violation"
            else:
                out.status, out.detail = "error", f"inconclusive: possible: {lab}: {verdict}"
        if out.status != "violation" and problems:
            kind, env, what, real = problems[0]
            if real:
                ok, desc, lab = replay(h, env)
                if ok:
                    v = dict(harness=h.name, label=lab, env=env_json(env), what=desc)
                    if not matches_known(v, KNOWN):
                        out.status = "violation"
                        out.violations.append(v)
            if out.status != "violation":
                out.status = "error"
                out.detail = f"encoding validation: {kind}: {what}"
        for ob in obls[:2]:
            out.samples.append(dict(label=ob.label, path_conditions=len(ob.pc), size=len(X.topo(elem_roots(ob.a) + elem_roots(ob.b)))))
    except EngineError as e:
        if out.status != "violation":
            out.status = "error"
            out.detail = "engine: " + str(e)[:3000]
            # a real run that violates the obligations outright is still reported
            try:
                for _ in range(40):
                    ctx, exc = concrete_run(h, {}, rng)
                    if exc == "skip":
                        continue
                    ok, desc, lab = replay(h, ctx.env)
                    v = dict(harness=h.name, label=lab, env=env_json(ctx.env), what=desc + " (encoding incomplete)")
                    if ok and not matches_known(v, KNOWN):
                        out.status = "violation"
                        out.violations.append(v)
                        break
            except BaseException:
                pass
    except TimeLimit:
        if out.status != "violation":
            out.status, out.detail = "error", "engine: time limit"
    except Exception as e:
        out.status = "error"
        out.detail = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
    finally:
        engine.active = False
    out.stats = S.STATS.as_dict()
    out.wall = round(time.time() - t0, 2)
    return out


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000000007
    return h


def _worker(a):
    i, tier, seed = a
    torch.set_num_threads(1)
    logging.disable(logging.CRITICAL)
    try:
        return run_harness(REG[i], tier, seed).as_dict()
    except BaseException as e:     # a worker must always answer
        o = Outcome(REG[i].name)
        o.status, o.detail = "error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}"
        return o.as_dict()


def _serve(conn):
    parent = os.getppid()
    while True:
        while not conn.poll(5):
            if os.getppid() != parent:
                return
        args = conn.recv()
        if args is None:
            return
        conn.send(_worker(args))


def _dead(args, why):
    o = Outcome(REG[args[0]].name)
    o.status, o.detail = "error", why
    return o.as_dict()


def run_parallel(tasks, jobs, limit, per_worker=4):
    """run the harnesses in forked workers.  The parent has no other threads when it forks; a worker
    that dies (memory) has its harness repeated once on its own, and one that outlives the limit is ended"""
    mp = multiprocessing.get_context("fork")
    wait = multiprocessing.connection.wait
    results, todo, alone, live, t0 = {}, list(range(len(tasks))), [], {}, time.time()

    def start():
        mine, theirs = mp.Pipe()
        p = mp.Process(target=_serve, args=(theirs,), daemon=True)
        p.start()
        theirs.close()
        return dict(conn=mine, proc=p, task=None, n=0)

    def give(w, k):
        w["task"], w["n"] = k, w["n"] + 1
        live[w["conn"]] = w
        w["conn"].send(tasks[k])

    def close(w, kill=False):
        live.pop(w["conn"], None)
        if kill:
            w["proc"].kill()
        else:
            try:
                w["conn"].send(None)
            except OSError:
                pass
        w["conn"].close()
        w["proc"].join()

    while todo or alone or live:
        while todo and len(live) < jobs:
            give(start(), todo.pop(0))
        if not live and alone:
            give(start(), alone.pop(0))
        ready = wait(list(live), timeout=5)
        for c in ready:
            w = live[c]
            k = w["task"]
            try:
                results[k] = c.recv()
            except (EOFError, OSError):
                close(w, kill=True)
                if k in results.get("died", ()):
                    results[k] = _dead(tasks[k], "the process of this harness was ended (memory?)")
                else:
                    results.setdefault("died", set()).add(k)
                    alone.append(k)
                continue
            live.pop(c)
            if todo and w["n"] < per_worker:
                give(w, todo.pop(0))
            else:
                close(w)
        if time.time() - t0 > limit:
            for w in list(live.values()):
                results[w["task"]] = _dead(tasks[w["task"]], f"no answer within {limit} s")
                close(w, kill=True)
            for k in todo + alone:
                results[k] = _dead(tasks[k], f"not started within {limit} s")
            todo, alone = [], []
    return [results[k] for k in range(len(tasks))]


# ---------------------------------------------------------------- a property
def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def matches_known(v, known):
    for k in known:
        if k["harness"] == v["harness"] and v["label"].startswith(k["label"]):
            return k
    return None


def run_property(pid, tier=None, seed=None, only=None, jobs=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, REPO)
    torch.set_num_threads(1)
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    known = load_known(pid)
    KNOWN[:] = known
    idx = [i for i, h in enumerate(REG) if h.module == f"checks.{pid.lower()}" and (h.tier == "quick" or tier == "thorough") and (only is None or only in h.name)]
    import irtorch
    if not os.path.abspath(irtorch.__file__).startswith(os.path.abspath(REPO)):
        print(f"ERROR: irtorch imported from {irtorch.__file__}, not {REPO}")
        return 2
    jobs = jobs or min(8, os.cpu_count() or 2)
    # long harnesses first
    idx.sort(key=lambda i: -REG[i].timeout)
    if jobs == 1 or len(idx) == 1:
        outs = [_worker((i, tier, seed)) for i in idx]
    else:
        outs = run_parallel([(i, tier, seed) for i in idx], min(jobs, len(idx)), limit=780 if tier == "quick" else 6 * 3600)
    viol, errors, known_hit = [], [], []
    for o in outs:
        for v in o["violations"]:
            k = matches_known(v, known)
            (known_hit if k else viol).append((v, k))
        if o["status"] == "error":
            errors.append((o["name"], o["detail"]))
    wall = round(time.time() - t0, 2)
    write_evidence(pid, tier, seed, outs, viol, errors, known_hit, wall, mod)
    for o in sorted(outs, key=lambda o: o["name"]):
        print(f"  {o['name']}: {o['status']} paths={o['paths']} obligations={o['obligations']} discharged={o['discharged']}"
              f"{' tol=' + str(o['tolerance']) if o['tolerance'] else ''}{' degraded=' + str(len(o['degraded'])) if o['degraded'] else ''}"
              f" queries={o['stats'].get('queries', 0)} solver={o['stats'].get('solver_s', 0)}s wall={o['wall']}s")
    for k in known:
        if any(kk is k for _, kk in known_hit):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if errors:
        for n, d in errors:
            print(f"INCONCLUSIVE {n}: {d}")
    if viol:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        for j, (v, _) in enumerate(viol[:5]):
            path = os.path.join(VERIF, "out", f"{pid}-{j}.json")
            json.dump(dict(property=pid, **v), open(path, "w"), indent=1)
            print(f"  {v['harness']}: {v['label']}: {v['what']}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        return 2
    print(f"{pid}: held on everything explored ({sum(o['obligations'] for o in outs)} obligations, {wall} s)")
    return 0


def write_evidence(pid, tier, seed, outs, viol, errors, known_hit, wall, mod):
    fns = sorted({f for o in outs for f in o["functions"]})
    tot = lambda k: sum(o[k] for o in outs)
    st = lambda k: sum(o["stats"].get(k, 0) for o in outs)
    cov = dict(
        explanation=(mod.__doc__ or "").strip() + " Method: the listed library functions were executed symbolically (current source, "
        "real PyTorch front end and autograd over an ATen interpreter); each obligation's negation was given to the SMT solver for all "
        "values of the symbolic inputs within the bounds; counterexamples are replayed on the real code before being reported.",
        harnesses=len(outs), paths=tot("paths"), obligations=tot("obligations"), discharged=tot("discharged"),
        discharged_within_tolerance=tot("tolerance"), discharged_at_smaller_bound=[d for o in outs for d in o["degraded"]],
        solver_queries=st("queries"), solver_unsat=st("unsat"), solver_sat=st("sat"), solver_unknown=st("unknown"),
        solver_seconds=round(st("solver_s"), 2), case_split_leaves=st("case_split_leaves"), axiom_instances=st("axiom_instances"),
        symbolic_variables=tot("vars"), encoding_validation_runs=tot("validated"), functions_encoded=fns,
        reachability_witnesses=sum(bool(o["reach"]) for o in outs),
        per_harness=[dict(name=o["name"], status=o["status"], paths=o["paths"], obligations=o["obligations"], variables=o["vars"],
                          bounds_sample=o["bounds"], queries=o["stats"].get("queries", 0), wall_s=o["wall"]) for o in outs],
        samples=[s for o in outs for s in o["samples"]][:8],
        inconclusive=[n for n, _ in errors], known_findings=[k["what"] for _, k in known_hit],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS, wall_s=wall, violations=len(viol))
    os.makedirs(os.path.join(os.environ.get("VERIF_EVIDENCE", VERIF), "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get("VERIF_EVIDENCE", VERIF), "evidence", f"{pid}.json"), "w"), indent=1)


COMMON_ASSUMPTIONS = [
    "floating-point numbers are modelled as extended reals (NaN and infinities explicit, rounding ignored); float constants are read as the simplest rational they round from",
    "tensor sizes, item counts and category counts are the concrete small ones of each harness; variables range over the intervals listed per harness",
    "the ATen operator semantics in torchsym/ops.py (cross-checked on every run against the real kernels on random inputs of each harness)",
    "exp/log are handled by algebraic normalisation plus positivity, monotonicity and tangent axioms; other transcendental functions are opaque",
]


def selftest():
    import z3
    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    sys.path.insert(0, REPO)
    import irtorch
    print("z3", z3.get_version_string(), "torch", torch.__version__, "irtorch", os.path.dirname(irtorch.__file__))
    return 0


def main(argv):
    pid = argv[0]
    if pid == "--selftest":
        return selftest()
    tier = None
    only = None
    jobs = None
    rep = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 1
        elif argv[i] == "--only":
            only = argv[i + 1]
            i += 1
        elif argv[i] == "--jobs":
            jobs = int(argv[i + 1])
            i += 1
        elif argv[i] == "--replay":
            rep = argv[i + 1]
            i += 1
        i += 1
    if rep:
        sys.path.insert(0, REPO)
        importlib.import_module(f"checks.{pid.lower()}")
        d = json.load(open(rep))
        h = next(h for h in REG if h.name == d["harness"] and h.module == f"checks.{pid.lower()}")
        if d.get("never"):
            ok, desc = not occurs(h, d["label"], random.Random(7)), d["label"] + " never happens"
        else:
            ok, desc, _ = replay(h, env_unjson(d["env"]), d["label"])
        print(("REPRODUCED: " if ok else "not reproduced: ") + desc)
        return 1 if ok else 0
    return run_property(pid, tier, None, only, jobs)
