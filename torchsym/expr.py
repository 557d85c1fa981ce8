"""Hash-consed symbolic expressions over the (extended) reals.

Numbers  : ('c', Fraction) | ('v', name) | ('add', const, ((e, coef), ...))
           | ('mul', ((e, intpow), ...)) | ('exp', e) | ('log', e)
           | ('ite', cond, a, b) | ('floor', e) | ('fn', name, args...)
Booleans : ('b', True/False) | ('bv', name) | ('le', e) [e <= 0]
           | ('lt', e) [e < 0] | ('eq', e) [e == 0] | ('not', b)
           | ('and', bs) | ('or', bs)

Constructors simplify; equal expressions are the same object.
"""
from __future__ import annotations
import math
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)
_table: dict = {}
_counter = [0]


class Expr:
    __slots__ = ("op", "args", "id", "_iv", "_nf", "_int", "_size", "__weakref__")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        _counter[0] += 1
        self.id = _counter[0]
        self._iv = None
        self._nf = None
        self._int = None
        self._size = None

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        raise TypeError("Expr cannot be pickled")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _mk(op, args, key):
    e = _table.get(key)
    if e is None:
        e = Expr(op, args)
        _table[key] = e
    return e


def const(x) -> Expr:
    if type(x) is not Fraction:
        x = Fraction(x)
    return _mk("c", x, ("c", x))


def is_bool(e):
    return e.op in ("b", "bv", "le", "lt", "eq", "not", "and", "or")


TRUE = _mk("b", True, ("b", True))
FALSE = _mk("b", False, ("b", False))
ZERO = const(0)
ONE = const(1)
MONE = const(-1)

# ---------------------------------------------------------------- variables
VARS: dict = {}          # name -> dict(kind, lo, hi, lo_open, hi_open)


def var(name, lo=None, hi=None, integer=False, lo_open=False, hi_open=False):
    e = _mk("v", name, ("v", name))
    d = dict(lo=None if lo is None else Fraction(lo), hi=None if hi is None else Fraction(hi),
             lo_open=lo_open, hi_open=hi_open, integer=integer)
    if name in VARS:
        if VARS[name] != d:
            from .elem import EngineError
            raise EngineError(f"variable {name} declared with different ranges: {VARS[name]} and {d}")
        return e
    VARS[name] = d
    e._iv = None
    e._int = integer
    return e


def var_ref(name):
    return _table[("v", name)]


def bvar(name):
    return _mk("bv", name, ("bv", name))


def reset():
    """Forget every expression (start of a new harness)."""
    keep = [TRUE, FALSE, ZERO, ONE, MONE]
    _table.clear()
    _table[("b", True)] = TRUE
    _table[("b", False)] = FALSE
    for k in (ZERO, ONE, MONE):
        _table[("c", k.args)] = k
    VARS.clear()


# ---------------------------------------------------------------- intervals
# (lo, lo_open, hi, hi_open); None = unbounded
_TOP = (None, True, None, True)


def interval(e):
    iv = e._iv
    if iv is None:
        iv = _interval(e)
        e._iv = iv
    return iv


def _iv_add(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return (lo, a[1] or b[1], hi, a[3] or b[3])


def _iv_scale(a, c):
    if c == 0:
        return (F0, False, F0, False)
    lo = None if a[0] is None else a[0] * c
    hi = None if a[2] is None else a[2] * c
    if c > 0:
        return (lo, a[1], hi, a[3])
    return (hi, a[3], lo, a[1])


def _iv_mul(a, b):
    # only handle sign-definite operands precisely
    if a == b and a == _TOP:
        return _TOP
    def nn(x):
        return x[0] is not None and x[0] >= 0
    def np_(x):
        return x[2] is not None and x[2] <= 0
    if np_(a) and not nn(a):
        return _iv_scale(_iv_mul(_iv_scale(a, -1), b), -1)
    if np_(b) and not nn(b):
        return _iv_scale(_iv_mul(a, _iv_scale(b, -1)), -1)
    if nn(a) and nn(b):
        lo = a[0] * b[0]
        # product attains lo unless an operand at its bound is open
        if lo == 0:
            lo_open = not ((a[0] == 0 and not a[1]) or (b[0] == 0 and not b[1]))
        else:
            lo_open = a[1] or b[1]
        if a[2] is None or b[2] is None:
            if (a[2] == 0 and not a[3]) or (b[2] == 0 and not b[3]):
                return (F0, False, F0, False)
            return (lo, lo_open, None, True)
        return (lo, lo_open, a[2] * b[2], a[3] or b[3])
    if None not in (a[0], a[2], b[0], b[2]):
        ps = [a[0] * b[0], a[0] * b[2], a[2] * b[0], a[2] * b[2]]
        return (min(ps), False, max(ps), False)
    return _TOP


def _iv_pow(a, n):
    if n < 0:
        # 1 / a^|n|
        b = _iv_pow(a, -n)
        if b[0] is not None and (b[0] > 0 or (b[0] == 0 and b[1])):
            lo = F0 if b[2] is None else 1 / b[2]
            lo_open = True if b[2] is None else b[3]
            hi = None if b[0] == 0 else 1 / b[0]
            hi_open = True if b[0] == 0 else b[1]
            return (lo, lo_open, hi, hi_open)
        if b[2] is not None and (b[2] < 0 or (b[2] == 0 and b[3])):
            c = _iv_pow(_iv_scale(b, -1), -1)
            return _iv_scale(c, -1)
        if b[0] is not None and b[0] >= 0:
            return (F0, True, None, True)   # value nonneg where defined
        return _TOP
    if n == 1:
        return a
    if n % 2 == 0:
        if a[0] is not None and a[0] >= 0:
            return (a[0] ** n, a[1], None if a[2] is None else a[2] ** n, a[3])
        if a[2] is not None and a[2] <= 0:
            return _iv_pow(_iv_scale(a, -1), n)
        if a[0] is None or a[2] is None:
            return (F0, False, None, True)
        m = max(-a[0], a[2])
        return (F0, False, m ** n, False)
    return (None if a[0] is None else a[0] ** n, a[1], None if a[2] is None else a[2] ** n, a[3])


def _interval(e):
    op = e.op
    if op == "c":
        return (e.args, False, e.args, False)
    if op == "v":
        d = VARS.get(e.args)
        if d is None:
            return _TOP
        return (d["lo"], d["lo_open"], d["hi"], d["hi_open"])
    if op == "add":
        c, ts = e.args
        r = (c, False, c, False)
        for t, k in ts:
            r = _iv_add(r, _iv_scale(interval(t), k))
            if r[0] is None and r[2] is None:
                break
        return r
    if op == "mul":
        r = (F1, False, F1, False)
        for t, n in e.args:
            r = _iv_mul(r, _iv_pow(interval(t), n))
            if r == _TOP:
                # a zero-free sign may still be unknown; keep going is useless
                break
        return r
    if op == "exp":
        a = interval(e.args)
        lo, lo_open, hi, hi_open = F0, True, None, True
        if a[0] is not None and a[0] >= 0:
            lo, lo_open = F1 + a[0], True
            if a[0] == 0:
                lo, lo_open = F1, a[1]
        if a[2] is not None and a[2] <= 0:
            hi, hi_open = F1, (a[3] if a[2] == 0 else True)
        elif a[2] is not None:
            # rational over-approximation of exp(hi)
            if a[2] < 40:
                hi = Fraction(math.exp(float(a[2])) * 1.0001 + 1e-9)
        if a[0] is not None and a[0] < 0 and a[0] > -40:
            lo = Fraction(math.exp(float(a[0])) * 0.9999)
        return (lo, lo_open, hi, hi_open)
    if op == "log":
        a = interval(e.args)
        lo = hi = None
        lo_open = hi_open = True
        if a[0] is not None and a[0] >= 1:
            lo, lo_open = F0, (a[1] if a[0] == 1 else True)
        elif a[0] is not None and a[0] > 0:
            lo = Fraction(math.log(float(a[0])) - 1e-6)
        if a[2] is not None and 0 < a[2] <= 1:
            hi, hi_open = F0, (a[3] if a[2] == 1 else True)
        elif a[2] is not None and a[2] > 1:
            hi = Fraction(math.log(float(a[2])) + 1e-6)
        return (lo, lo_open, hi, hi_open)
    if op == "ite":
        _, a, b = e.args
        x, y = interval(a), interval(b)
        if x[0] is None or y[0] is None:
            lo, lo_open = None, True
        elif x[0] == y[0]:
            lo, lo_open = x[0], x[1] and y[1]
        else:
            lo, lo_open = (x[0], x[1]) if x[0] < y[0] else (y[0], y[1])
        if x[2] is None or y[2] is None:
            hi, hi_open = None, True
        elif x[2] == y[2]:
            hi, hi_open = x[2], x[3] and y[3]
        else:
            hi, hi_open = (x[2], x[3]) if x[2] > y[2] else (y[2], y[3])
        return (lo, lo_open, hi, hi_open)
    if op == "floor":
        a = interval(e.args)
        return (None if a[0] is None else Fraction(math.floor(a[0])), False,
                None if a[2] is None else Fraction(math.floor(a[2])), False)
    if op == "fn":
        name = e.args[0]
        if name == "sqrt":
            a = interval(e.args[1])
            pos = a[0] is not None and (a[0] > 0 or (a[0] == 0 and a[1]))
            return (F0, pos, None, True)
        if name == "erf":
            return (Fraction(-1), True, F1, True)
        if name in ("sin", "cos"):
            return (Fraction(-1), False, F1, False)
        if name == "atan":
            return (Fraction(-2), True, Fraction(2), True)
        if name.startswith("nn:"):          # opaque non-negative function
            return (F0, False, None, True)
        if name.startswith("pos:"):
            return (F0, True, None, True)
        return _TOP
    return _TOP


def is_pos(e):
    lo, o, _, _ = interval(e)
    return lo is not None and (lo > 0 or (lo == 0 and o))


def is_nonneg(e):
    lo, o, _, _ = interval(e)
    return lo is not None and lo >= 0


def is_neg(e):
    _, _, hi, o = interval(e)
    return hi is not None and (hi < 0 or (hi == 0 and o))


def is_nonpos(e):
    _, _, hi, o = interval(e)
    return hi is not None and hi <= 0


# a hook set by poly.py: deeper sign test through the rational normal form
deep_sign = [None]


def is_pos_deep(e):
    if is_pos(e):
        return True
    if deep_sign[0] is not None:
        return deep_sign[0](e) == 1
    return False


def is_nonzero(e):
    if is_pos(e) or is_neg(e):
        return True
    if e.op == "mul" and all(is_nonzero(t) for t, _ in e.args):
        return True
    if deep_sign[0] is not None:
        return deep_sign[0](e) in (1, -1)
    return False


def is_int(e):
    r = e._int
    if r is None:
        op = e.op
        if op == "c":
            r = e.args.denominator == 1
        elif op == "v":
            r = VARS.get(e.args, {}).get("integer", False)
        elif op == "add":
            r = e.args[0].denominator == 1 and all(k.denominator == 1 and is_int(t) for t, k in e.args[1])
        elif op == "mul":
            r = all(n > 0 and is_int(t) for t, n in e.args)
        elif op == "ite":
            r = is_int(e.args[1]) and is_int(e.args[2])
        elif op == "floor":
            r = True
        else:
            r = False
        e._int = r
    return r


# ---------------------------------------------------------------- arithmetic
def _build_add(c, d):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    items = tuple(items)
    key = ("add", c, tuple((t.id, k) for t, k in items))
    return _mk("add", (c, items), key)


def add(*es):
    c = F0
    d = {}
    for e in es:
        op = e.op
        if op == "c":
            c += e.args
        elif op == "add":
            c += e.args[0]
            for t, k in e.args[1]:
                d[t] = d.get(t, F0) + k
        else:
            d[e] = d.get(e, F0) + 1
    return _build_add(c, d)


def scale(e, k):
    if k == 1:
        return e
    if k == 0:
        return ZERO
    if e.op == "c":
        return const(e.args * k)
    if e.op == "add":
        return _build_add(e.args[0] * k, {t: c * k for t, c in e.args[1]})
    return _build_add(F0, {e: k})


def neg(e):
    return scale(e, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _coef_split(e):
    """e = k * r with r not a scaled single term."""
    if e.op == "c":
        return e.args, ONE
    if e.op == "add" and e.args[0] == 0 and len(e.args[1]) == 1:
        t, k = e.args[1][0]
        return k, t
    return F1, e


def mul(*es):
    k = F1
    d = {}
    expargs = []
    for e in es:
        c, r = _coef_split(e)
        k *= c
        if k == 0:
            return ZERO
        if r is ONE:
            continue
        if r.op == "mul":
            for t, n in r.args:
                if t.op == "exp":
                    expargs.append(scale(t.args, Fraction(n)))
                else:
                    d[t] = d.get(t, 0) + n
        elif r.op == "exp":
            expargs.append(r.args)
        else:
            d[r] = d.get(r, 0) + 1
    if expargs:
        x = exp(add(*expargs))
        if x.op == "exp":
            d[x] = d.get(x, 0) + 1
        elif x is not ONE:
            # exp simplified into something else (e.g. exp(log y)): redo
            return mul(const(k), x, *[power(t, n) for t, n in d.items()])
    return scale(_build_mul(d), k)


def _build_mul(d):
    # indicator-like ite(c, 1, 0) is idempotent
    items = [(t, n) for t, n in d.items() if n != 0]
    if not items:
        return ONE
    # sqrt(x)^2 -> x
    for i, (t, n) in enumerate(items):
        if t.op == "fn" and t.args[0] == "sqrt" and abs(n) >= 2:
            rest = [power(tt, nn) for j, (tt, nn) in enumerate(items) if j != i]
            q = int(n / 2)
            r = n - 2 * q
            return mul(power(t.args[1], q), *( [_mk_mul(((t, r),))] if r else []), *rest)
    items.sort(key=lambda p: p[0].id)
    return _mk_mul(tuple(items))


def _mk_mul(items):
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("mul", items, ("mul", tuple((t.id, n) for t, n in items)))


def power(e, n: int):
    if n == 0:
        return ONE
    if n == 1:
        return e
    if e.op == "c":
        if e.args == 0 and n < 0:
            return ZERO         # only under a guard that excludes it (elem.div)
        return const(e.args ** n)
    c, r = _coef_split(e)
    if c != 1:
        return scale(power(r, n), c ** n)
    if e.op == "exp":
        return exp(scale(e.args, Fraction(n)))
    if e.op == "mul":
        return mul(*[power(t, m * n) for t, m in e.args])
    if e.op == "fn" and e.args[0] == "sqrt" and abs(n) >= 2:
        return _build_mul({e: n})
    if e.op == "ite" and n > 0 and e.args[1].op == "c" and e.args[2].op == "c":
        return ite(e.args[0], power(e.args[1], n), power(e.args[2], n))
    return _mk_mul(((e, n),))


def div(a, b):
    if b.op == "c":
        return scale(a, 1 / b.args) if b.args else ZERO
    return mul(a, power(b, -1))


def exp(x):
    if x.op == "c":
        if x.args == 0:
            return ONE
    elif x.op == "log":
        return x.args
    elif x.op == "add":
        c, ts = x.args
        pulled = [(t, k) for t, k in ts if t.op == "log" and k.denominator == 1]
        if pulled:
            rest = _build_add(c, {t: k for t, k in ts if not (t.op == "log" and k.denominator == 1)})
            return mul(exp(rest), *[power(t.args, int(k)) for t, k in pulled])
        if c != 0 or len(ts) > 1:
            pass
    elif x.op == "ite" and x.args[1].op == "c" and x.args[1].args == 0 or \
            x.op == "ite" and x.args[2].op == "c" and x.args[2].args == 0:
        return ite(x.args[0], exp(x.args[1]), exp(x.args[2]))
    return _mk("exp", x, ("exp", x.id))


def log(x):
    if x is ONE:
        return ZERO
    if x.op == "exp":
        return x.args
    if x.op == "mul":
        if all(is_pos(t) for t, _ in x.args):
            return add(*[scale(log(t), Fraction(n)) for t, n in x.args])
    c, r = _coef_split(x)
    if c > 0 and c != 1 and r is not ONE and r.op == "mul" and all(is_pos(t) for t, _ in r.args):
        return add(log(const(c)), log(r))
    if x.op == "ite" and is_pos(x.args[1]) and is_pos(x.args[2]) and (x.args[1].op == "c" or x.args[2].op == "c"):
        return ite(x.args[0], log(x.args[1]), log(x.args[2]))
    return _mk("log", x, ("log", x.id))


def fn(name, *args):
    if name == "sqrt":
        (x,) = args
        if x.op == "c" and x.args >= 0:
            n, d = math.isqrt(x.args.numerator), math.isqrt(x.args.denominator)
            if n * n == x.args.numerator and d * d == x.args.denominator:
                return const(Fraction(n, d))
        if x.op == "mul" and all(n % 2 == 0 for _, n in x.args):
            return mul(*[power(t if is_nonneg(t) else abs_(t), n // 2) for t, n in x.args])
        if x.op == "exp":
            return exp(scale(x.args, Fraction(1, 2)))
        c, r = _coef_split(x)
        if c > 0 and c != 1 and r is not ONE:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return scale(fn("sqrt", r), Fraction(n, d))
    elif name in ("sin", "erf", "atan", "erfinv") and args[0] is ZERO:
        return ZERO
    elif name == "erfinv" and args[0].op == "c" and abs(args[0].args) < 1:
        import torch
        with torch.utils._python_dispatch._disable_current_modes():
            return const(Fraction(torch.erfinv(torch.tensor(float(args[0].args), dtype=torch.float64)).item()))
    elif name in ("cos", "sin") and args[0].op == "c":
        v = (math.cos if name == "cos" else math.sin)(float(args[0].args))
        for t in (Fraction(0), Fraction(1, 2), Fraction(-1, 2), Fraction(1), Fraction(-1)):
            if abs(v - float(t)) < 2e-7:      # within single-precision rounding of an exact value
                return const(t)
        return const(Fraction(v).limit_denominator(10 ** 9))
    elif name == "cos" and args[0] is ZERO:
        return ONE
    return _mk("fn", (name,) + args, ("fn", name) + tuple(a.id for a in args))


def sqrt(x):
    return fn("sqrt", x)


def floor(x):
    if x.op == "c":
        return const(math.floor(x.args))
    if is_int(x):
        return x
    if x.op == "ite":
        return ite(x.args[0], floor(x.args[1]), floor(x.args[2]))
    return _mk("floor", x, ("floor", x.id))


def abs_(x):
    if is_nonneg(x):
        return x
    if is_nonpos(x):
        return neg(x)
    return ite(lt(x, ZERO), neg(x), x)


def max_(a, b):
    return ite(le(b, a), a, b)


def min_(a, b):
    return ite(le(a, b), a, b)


# ---------------------------------------------------------------- booleans
def boolc(x):
    return TRUE if x else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args
    if a.op == "le":          # not(e <= 0) -> -e < 0
        return _cmp("lt", neg(a.args))
    if a.op == "lt":
        return _cmp("le", neg(a.args))
    return _mk("not", a, ("not", a.id))


def _conj(args, op, unit, zero):
    s = {}
    for a in args:
        if a is unit:
            continue
        if a is zero:
            return zero
        if a.op == op:
            for x in a.args:
                s[x] = None
        else:
            s[a] = None
    for a in s:
        if not_(a) in s:
            return zero
    if op == "and":
        eqs = [a for a in s if a.op == "eq"]
        if len(eqs) > 1:
            seen = {}
            for a in eqs:
                v, c = _eq_var_const(a)
                if v is not None:
                    if v in seen and seen[v] != c:
                        return zero
                    seen[v] = c
    if not s:
        return unit
    if len(s) == 1:
        return next(iter(s))
    items = tuple(sorted(s, key=lambda e: e.id))
    return _mk(op, items, (op, tuple(e.id for e in items)))


def and_(*args):
    return _conj(args, "and", TRUE, FALSE)


def or_(*args):
    return _conj(args, "or", FALSE, TRUE)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return ite(a, b, not_(b))


def _eq_var_const(e):
    """eq-atom  v == c  ->  (v, c)."""
    x = e.args
    if x.op == "v":
        return x, F0
    if x.op == "add" and len(x.args[1]) == 1:
        t, k = x.args[1][0]
        if t.op == "v":
            return t, -x.args[0] / k
    return None, None


def _norm_scale(e, signed):
    """scale e so that its leading coefficient is +-1 (keeps atoms canonical)."""
    if e.op == "add":
        k = e.args[1][0][1]
        if signed:
            k = abs(k)
        if k != 1:
            e = scale(e, 1 / k)
    elif e.op == "mul" and False:
        pass
    return e


def _cmp(op, e):
    e = _norm_scale(e, op != "eq")
    lo, lo_open, hi, hi_open = interval(e)
    if op == "le":
        if hi is not None and hi <= 0:
            return TRUE
        if lo is not None and (lo > 0 or (lo == 0 and lo_open)):
            return FALSE
    elif op == "lt":
        if hi is not None and (hi < 0 or (hi == 0 and hi_open)):
            return TRUE
        if lo is not None and lo >= 0:
            return FALSE
    else:
        if e.op == "c":
            return boolc(e.args == 0)
        if (lo is not None and (lo > 0 or (lo == 0 and lo_open))) or \
           (hi is not None and (hi < 0 or (hi == 0 and hi_open))):
            return FALSE
        v, c = None, None
        if is_int(e) is False and e.op == "add" and len(e.args[1]) == 1 and is_int(e.args[1][0][0]):
            # k*int + c == 0 with c/k not integer
            t, k = e.args[1][0]
            if (e.args[0] / k).denominator != 1:
                return FALSE
        if e.op == "mul":
            # product is zero iff some positive-power factor is
            return or_(*[_cmp("eq", t) for t, n in e.args if n > 0])
        if e.op == "exp":
            return FALSE
    # push through ite with a constant branch (keeps indicator tests boolean)
    d = e
    off = F0
    k = F1
    if e.op == "add" and len(e.args[1]) == 1 and e.args[1][0][0].op == "ite":
        off = e.args[0]
        d, k = e.args[1][0]
    if d.op == "ite" and (d.args[1].op == "c" or d.args[2].op == "c"):
        c, a, b = d.args
        return ite(c, _cmp(op, add(const(off), scale(a, k))), _cmp(op, add(const(off), scale(b, k))))
    if op != "eq" and e.op == "mul":
        # drop positive factors
        rest = {t: n for t, n in e.args if not is_pos(t)}
        if len(rest) < len(e.args):
            # even powers of nonzero stay; handled only by dropping positives
            return _cmp(op, _build_mul(rest))
    if op != "eq" and e.op == "add" and e.args[0] == 0 and len(e.args[1]) == 1 and e.args[1][0][0].op == "mul":
        t0, k0 = e.args[1][0]
        rest = {t: n for t, n in t0.args if not is_pos(t)}
        if len(rest) < len(t0.args):
            return _cmp(op, scale(_build_mul(rest), k0))
    return _mk(op, e, (op, e.id))


def le(a, b):
    return _cmp("le", sub(a, b))


def lt(a, b):
    return _cmp("lt", sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if is_bool(a):
        return iff(a, b)
    return _cmp("eq", sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args, b, a)
    if c.op == "le":
        c, a, b = not_(c), b, a
        if c is TRUE or c is FALSE:
            return a if c is TRUE else b
    if is_bool(a):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, a, ite(d, a, b)) -> ite(c or d, a, b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return _mk("ite", (c, a, b), ("ite", c.id, a.id, b.id))


# ---------------------------------------------------------------- traversal
def children(e):
    op = e.op
    if op in ("c", "v", "b", "bv"):
        return ()
    if op == "add":
        return tuple(t for t, _ in e.args[1])
    if op == "mul":
        return tuple(t for t, _ in e.args)
    if op in ("exp", "log", "floor", "le", "lt", "eq", "not"):
        return (e.args,)
    if op == "fn":
        return e.args[1:]
    return e.args


def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        e, done = stack.pop()
        if done:
            out.append(e)
            continue
        if e.id in seen:
            continue
        seen.add(e.id)
        stack.append((e, True))
        for c in children(e):
            if c.id not in seen:
                stack.append((c, False))
    return out


def free_vars(roots):
    return {e.args for e in topo(roots) if e.op in ("v", "bv")}


def rebuild(e, ch):
    op = e.op
    if op == "add":
        d = [const(e.args[0])]
        for c, (_, k) in zip(ch, e.args[1]):
            d.append(scale(c, k))
        return add(*d)
    if op == "mul":
        return mul(*[power(c, n) for c, (_, n) in zip(ch, e.args)])
    if op == "exp":
        return exp(ch[0])
    if op == "log":
        return log(ch[0])
    if op == "floor":
        return floor(ch[0])
    if op in ("le", "lt", "eq"):
        return _cmp(op, ch[0])
    if op == "not":
        return not_(ch[0])
    if op == "and":
        return and_(*ch)
    if op == "or":
        return or_(*ch)
    if op == "ite":
        return ite(*ch)
    if op == "fn":
        return fn(e.args[0], *ch)
    return e


def subst(roots, mapping):
    """Replace sub-expressions (mapping: Expr -> Expr)."""
    memo = {k.id: v for k, v in mapping.items()}
    for e in topo(roots):
        if e.id in memo:
            continue
        ch = children(e)
        nch = [memo[c.id] for c in ch]
        if all(a is b for a, b in zip(ch, nch)):
            memo[e.id] = e
        else:
            memo[e.id] = rebuild(e, nch)
    return [memo[r.id] for r in roots]


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def evaluate(roots, env):
    """Numeric (float) evaluation.  env: var name -> number / bool."""
    memo = {}
    for e in topo(roots):
        op = e.op
        try:
            if op == "c":
                r = float(e.args)
            elif op in ("v", "bv"):
                r = env[e.args]
                if op == "v":
                    r = float(r)
            elif op == "b":
                r = e.args
            elif op == "add":
                r = float(e.args[0])
                for t, k in e.args[1]:
                    r += float(k) * memo[t.id]
            elif op == "mul":
                r = 1.0
                for t, n in e.args:
                    x = memo[t.id]
                    if x == 0.0 and n < 0:
                        r = math.nan
                    else:
                        r *= x ** n
            elif op == "exp":
                x = memo[e.args.id]
                r = math.inf if x > 709 else math.exp(x)
            elif op == "log":
                x = memo[e.args.id]
                r = math.log(x) if x > 0 else math.nan
            elif op == "floor":
                x = memo[e.args.id]
                r = float(math.floor(x)) if math.isfinite(x) else math.nan
            elif op == "ite":
                c, a, b = e.args
                r = memo[a.id] if memo[c.id] else memo[b.id]
            elif op == "le":
                r = memo[e.args.id] <= 0
            elif op == "lt":
                r = memo[e.args.id] < 0
            elif op == "eq":
                r = memo[e.args.id] == 0
            elif op == "not":
                r = not memo[e.args.id]
            elif op == "and":
                r = all(memo[x.id] for x in e.args)
            elif op == "or":
                r = any(memo[x.id] for x in e.args)
            elif op == "fn":
                r = _eval_fn(e.args[0], [memo[x.id] for x in e.args[1:]], env)
            else:
                raise EvalError(op)
        except OverflowError:
            r = math.inf
        except (ValueError, ZeroDivisionError):
            r = math.nan
        memo[e.id] = r
    return [memo[r.id] for r in roots]


FN_EVAL = {}


def _eval_fn(name, args, env):
    if any(isinstance(a, float) and math.isnan(a) for a in args):
        return math.nan
    f = FN_EVAL.get(name)
    if f is not None:
        return f(*args)
    if name == "sqrt":
        return math.sqrt(args[0]) if args[0] >= 0 else math.nan
    if name in ("erf", "sin", "cos", "tan", "atan", "asin", "acos", "lgamma"):
        return getattr(math, name)(*args)
    if name == "erfinv":
        import torch
        return torch.erfinv(torch.tensor(args[0], dtype=torch.float64)).item()
    if name == "digamma":
        import torch
        return torch.digamma(torch.tensor(args[0], dtype=torch.float64)).item()
    raise EvalError("fn " + name)


# ---------------------------------------------------------------- derivative
def diff(root, v):
    """d root / d v  (v: var Expr); piecewise for ite (conditions held fixed)."""
    memo = {}
    for e in topo([root]):
        op = e.op
        if is_bool(e):
            continue
        if e is v:
            r = ONE
        elif op in ("c", "v", "floor"):
            r = ZERO
        elif op == "add":
            r = add(*[scale(memo[t.id], k) for t, k in e.args[1]])
        elif op == "mul":
            ts = []
            for t, n in e.args:
                dt = memo[t.id]
                if dt is ZERO:
                    continue
                ts.append(mul(const(n), e, power(t, -1), dt) if is_nonzero(t) else
                          mul(const(n), power(t, n - 1), dt, *[power(u, m) for u, m in e.args if u is not t]))
            r = add(*ts) if ts else ZERO
        elif op == "exp":
            r = mul(e, memo[e.args.id])
        elif op == "log":
            r = div(memo[e.args.id], e.args)
        elif op == "ite":
            r = ite(e.args[0], memo[e.args[1].id], memo[e.args[2].id])
        elif op == "fn":
            name = e.args[0]
            if all(memo[a.id] is ZERO for a in e.args[1:]):
                r = ZERO
            else:
                a = e.args[1]
                da = memo[a.id]
                if name == "sqrt":
                    r = div(da, scale(e, Fraction(2)))
                elif name == "sin":
                    r = mul(fn("cos", a), da)
                elif name == "cos":
                    r = neg(mul(fn("sin", a), da))
                elif name == "erf":
                    r = mul(const(Fraction(2 / math.sqrt(math.pi)).limit_denominator(10**12)), exp(neg(mul(a, a))), da)
                elif name == "atan":
                    r = div(da, add(ONE, mul(a, a)))
                elif name == "lgamma":
                    r = mul(fn("digamma", a), da)
                else:
                    raise EvalError("diff of " + name)
        else:
            raise EvalError("diff " + op)
        memo[e.id] = r
    return memo[root.id]


# ---------------------------------------------------------------- printing
def show(e, depth=6):
    op = e.op
    if depth == 0:
        return "..."
    d = depth - 1
    if op == "c":
        return str(e.args) if e.args.denominator < 10 ** 6 else repr(float(e.args))
    if op in ("v", "bv", "b"):
        return str(e.args)
    if op == "add":
        s = [] if e.args[0] == 0 else [show(const(e.args[0]))]
        for t, k in e.args[1]:
            s.append(show(t, d) if k == 1 else f"{show(const(k))}*{show(t, d)}")
        return "(" + " + ".join(s) + ")"
    if op == "mul":
        return "*".join(show(t, d) if n == 1 else f"{show(t, d)}^{n}" for t, n in e.args)
    if op in ("exp", "log", "floor", "not"):
        return f"{op}({show(e.args, d)})"
    if op in ("le", "lt", "eq"):
        return f"({show(e.args, d)} {dict(le='<=', lt='<', eq='==')[op]} 0)"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d) for x in e.args) + ")"
    if op == "ite":
        return f"ite({', '.join(show(x, d) for x in e.args)})"
    if op == "fn":
        return f"{e.args[0]}({', '.join(show(x, d) for x in e.args[1:])})"
    return op
