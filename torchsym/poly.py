"""Rational-function normal form over 'atoms' (variables, exp-monomials, logs,
ite's, opaque functions):   coef * monomial * prod factor_i ** k_i .

Sums are expanded over a common factor set, re-factored into content, monomial
and a primitive remainder.  Two expressions that are equal as rational
functions of their atoms have a difference with coef == 0.
"""
from __future__ import annotations
import math
from fractions import Fraction
from . import expr as X

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 60000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("kind", "payload", "idx", "iv", "arg")
    # kind: 'v' (Expr var), 'exp' (payload=key, arg=RF of exponent unit),
    #       'log' (arg RF), 'ite' (payload=(cond Expr, RF, RF)), 'fn', 'floor', 'prime'


class RF:
    __slots__ = ("coef", "mono", "fac")

    def __init__(self, coef, mono=(), fac=()):
        self.coef = coef
        self.mono = mono      # tuple of (atom idx, exponent) sorted
        self.fac = fac        # tuple of (factor idx, int exponent) sorted

    def key(self):
        return (self.coef, self.mono, self.fac)

    def is_zero(self):
        return self.coef == 0


ZERO = RF(F0)
ONE = RF(F1)
atoms: list = []
atom_ix: dict = {}
factors: list = []       # each: dict mono -> coef  (primitive)
factor_ix: dict = {}
factor_iv: dict = {}


def reset():
    atoms.clear()
    atom_ix.clear()
    factors.clear()
    factor_ix.clear()
    factor_iv.clear()
    _psqrt.clear()
    _kexp_bases.clear()


def _atom(kind, key, payload=None, arg=None, iv=X._TOP):
    k = (kind, key)
    i = atom_ix.get(k)
    if i is None:
        a = Atom()
        a.kind, a.payload, a.arg, a.iv = kind, payload, arg, iv
        a.idx = len(atoms)
        atoms.append(a)
        atom_ix[k] = i = a.idx
    return i


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n == 0:
            d.pop(k, None)
        else:
            d[k] = n
    return tuple(sorted(d.items()))


def mono_pow(a, n):
    return tuple((k, e * n) for k, e in a) if n != 0 else ()


def poly_mul(p, q):
    r = {}
    if len(p) * len(q) > MAXTERMS * 20:
        raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            c = r.get(m, F0) + c1 * c2
            if c == 0:
                r.pop(m, None)
            else:
                r[m] = c
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def poly_divide(p, q):
    """exact division p / q, or None (monomials compared by a lex-like order)."""
    if len(q) > len(p):
        return None
    def keyf(m):
        return _order(m)
    lq = max(q, key=keyf)
    cq = q[lq]
    inv = mono_pow(lq, -1)
    r = dict(p)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 500:
            return None
        lp = max(r, key=keyf)
        m = mono_mul(lp, inv)
        if any(e < 0 for _, e in m):
            return None
        c = r[lp] / cq
        out[m] = c
        for mq, c2 in q.items():
            mm = mono_mul(m, mq)
            v = r.get(mm, F0) - c * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
        if len(r) > 3 * len(p) + 50:
            return None
    return out


def _order(m):
    # graded-free lexicographic: compare exponents by atom index
    return tuple((-k, e) for k, e in m)


def _lex_key(m):
    return _order(m)


def factor_of(poly):
    """register primitive polynomial, return index."""
    key = frozenset(poly.items())
    i = factor_ix.get(key)
    if i is None:
        i = len(factors)
        factors.append(poly)
        factor_ix[key] = i
    return i


def from_poly(p, fac=()):
    """polynomial dict * prod fac  ->  RF"""
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        return RF(c, m, fac)
    # monomial gcd
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            for k in list(mins):
                mins[k] = min(mins[k], d.get(k, 0))
            for k, e in d.items():
                if k not in mins and e < 0:
                    mins[k] = e
        # atoms absent from m count as exponent 0
        for k in list(mins):
            if k not in d and mins[k] > 0:
                mins[k] = 0
    g = tuple(sorted((k, e) for k, e in mins.items() if e != 0))
    if g:
        ginv = mono_pow(g, -1)
        p = {mono_mul(m, ginv): c for m, c in p.items()}
    # cancel against denominators
    fd = dict(fac)
    for fi, k in list(fd.items()):
        while k < 0 and len(p) >= len(factors[fi]) and len(p) <= 600:
            q = poly_divide(p, factors[fi])
            if q is None:
                break
            p = q
            k += 1
        if k == 0:
            fd.pop(fi)
        else:
            fd[fi] = k
    if len(p) == 1:
        (m, c), = p.items()
        return RF(c, mono_mul(m, g), tuple(sorted(fd.items())))
    lead = max(p, key=_lex_key)
    c = p[lead]
    if c < 0 and all(v < 0 for v in p.values()):
        pass
    elif c < 0 and sum(v > 0 for v in p.values()) * 2 > len(p):
        c = abs(c)
    elif c > 0 and sum(v < 0 for v in p.values()) * 2 > len(p):
        c = -c
    else:
        c = abs(c) if c > 0 else c
    # canonical sign: leading coefficient +1 always (keeps f and -f the same factor)
    c = p[lead]
    if c != 1:
        p = {m: v / c for m, v in p.items()}
    fi = factor_of(p)
    fd[fi] = fd.get(fi, 0) + 1
    if fd[fi] == 0:
        fd.pop(fi)
    return RF(c, g, tuple(sorted(fd.items())))


def rf_mul(a, b):
    if a.coef == 0 or b.coef == 0:
        return ZERO
    fac = dict(a.fac)
    for k, e in b.fac:
        n = fac.get(k, 0) + e
        if n == 0:
            fac.pop(k, None)
        else:
            fac[k] = n
    return _reduce_roots(RF(a.coef * b.coef, mono_mul(a.mono, b.mono), tuple(sorted(fac.items()))))


def _reduce_roots(r):
    """sqrt-atoms: t^2 -> arg."""
    for k, e in r.mono:
        a = atoms[k]
        if a.kind == "sqrt" and abs(e) >= 2:
            q = int(e / 2)
            rest = mono_mul(r.mono, ((k, -2 * q),))
            base = RF(r.coef, rest, r.fac)
            return rf_mul(base, rf_pow(a.arg, q))
    return r


def rf_pow(a, n):
    if n == 0:
        return ONE
    if a.coef == 0:
        if n < 0:
            raise ZeroDivisionError
        return ZERO
    return _reduce_roots(RF(a.coef ** n, mono_pow(a.mono, n), tuple((k, e * n) for k, e in a.fac)))


def expand(r):
    """RF with only non-negative factor powers -> polynomial dict"""
    p = {r.mono: r.coef}
    for fi, k in r.fac:
        for _ in range(k):
            p = poly_mul(p, factors[fi])
    return p


def rf_add(terms):
    terms = [t for t in terms if t.coef != 0]
    if not terms:
        return ZERO
    if len(terms) == 1:
        return terms[0]
    # merge like terms first
    d = {}
    for t in terms:
        k = (t.mono, t.fac)
        d[k] = d.get(k, F0) + t.coef
    terms = [RF(c, m, f) for (m, f), c in d.items() if c != 0]
    if not terms:
        return ZERO
    if len(terms) == 1:
        return terms[0]
    common = None
    for t in terms:
        fd = dict(t.fac)
        if common is None:
            common = dict(fd)
        else:
            for k in list(common):
                common[k] = min(common[k], fd.get(k, 0))
            for k, e in fd.items():
                if k not in common:
                    common[k] = min(e, 0)
    common = {k: e for k, e in common.items() if e != 0}
    for t in terms:      # factors absent in a term count as 0
        fd = dict(t.fac)
        for k in list(common):
            if common[k] > 0 and k not in fd:
                common.pop(k)
    total = {}
    need_root = False
    for t in terms:
        fd = dict(t.fac)
        left = []
        for k in set(fd) | set(common):
            e = fd.get(k, 0) - common.get(k, 0)
            if e:
                left.append((k, e))
        for m, c in expand(RF(t.coef, t.mono, tuple(left))).items():
            v = total.get(m, F0) + c
            if v == 0:
                total.pop(m, None)
            else:
                total[m] = v
        if len(total) > MAXTERMS:
            raise TooBig()
    # sqrt reductions inside expanded monomials
    for m in total:
        for k, e in m:
            if atoms[k].kind == "sqrt" and abs(e) >= 2:
                need_root = True
                break
    fac = tuple(sorted(common.items()))
    if need_root:
        parts = [_reduce_roots(RF(c, m)) for m, c in total.items()]
        r = rf_add(parts)
        return rf_mul(r, RF(F1, (), fac))
    return from_poly(total, fac)


# ------------------------------------------------------------ interval / sign
def atom_iv(i):
    return atoms[i].iv


def mono_iv(m):
    r = (F1, False, F1, False)
    for k, e in m:
        iv = atom_iv(k)
        if isinstance(e, Fraction) and e.denominator != 1:
            # exp atoms only: positive
            t = (F0, True, None, True)
            if iv[0] is not None and iv[0] >= 1 and e > 0:
                t = (F1, iv[1] if iv[0] == 1 else False, None, True)
        else:
            t = X._iv_pow(iv, int(e))
        r = X._iv_mul(r, t)
    return r


def fac_iv(fi):
    iv = factor_iv.get(fi)
    if iv is None:
        r = (F0, False, F0, False)
        for m, c in factors[fi].items():
            r = X._iv_add(r, X._iv_scale(mono_iv(m), c))
            if r[0] is None and r[2] is None:
                break
        factor_iv[fi] = iv = r
    return iv


def iv_sign(iv):
    lo, lo_o, hi, hi_o = iv
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return 1
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return -1
    return None


def rf_sign(r):
    """1 / -1 / 0 / None (unknown)"""
    if r.coef == 0:
        return 0
    s = 1 if r.coef > 0 else -1
    for k, e in r.mono:
        t = iv_sign(atom_iv(k))
        if t is None:
            return None
        if e % 2 == 1 or (isinstance(e, Fraction) and e.denominator != 1):
            s *= t
    for fi, e in r.fac:
        t = iv_sign(fac_iv(fi))
        if t is None:
            return None
        if e % 2 == 1:
            s *= t
    return s


def rf_interval(r):
    iv = X._iv_scale(mono_iv(r.mono), r.coef)
    for fi, e in r.fac:
        iv = X._iv_mul(iv, X._iv_pow(fac_iv(fi), e))
    return iv


def deep_sign(e):
    s = getattr(_ds_cache, "d", None)
    try:
        return rf_sign(nf(e))
    except (TooBig, ZeroDivisionError):
        return None


class _DS:
    pass


_ds_cache = _DS()
X.deep_sign[0] = deep_sign


# ------------------------------------------------------------ normal form
def nf(e):
    r = e._nf
    if r is not None:
        return r
    for t in X.topo([e]):
        if t._nf is None and not X.is_bool(t):
            t._nf = _nf(t)
    return e._nf


def _var_atom(e):
    return _atom("v", e.args, payload=e, iv=X.interval(e))


def _nf(e):
    op = e.op
    if op == "c":
        return RF(e.args)
    if op == "v":
        return RF(F1, ((_var_atom(e), 1),))
    if op == "add":
        c, ts = e.args
        terms = [RF(c)]
        for t, k in ts:
            n = t._nf
            terms.append(RF(n.coef * k, n.mono, n.fac))
        return rf_add(terms)
    if op == "mul":
        r = ONE
        for t, n in e.args:
            try:
                r = rf_mul(r, rf_pow(t._nf, n))
            except ZeroDivisionError:
                return RF(F1, ((_atom("undef", e.id, payload=e), 1),))
        return r
    if op == "exp":
        a = e.args
        if a.op == "add" and any(x < 0 for _, x in a._nf.fac):
            # rational exponent: keep the summands apart, exp(s + t) = exp(s) exp(t)
            c, ts = a.args
            r = rf_exp(RF(c))
            for t, k in ts:
                n = t._nf
                r = rf_mul(r, rf_exp(RF(n.coef * k, n.mono, n.fac)))
            return r
        return rf_exp(a._nf)
    if op == "log":
        return rf_log(e.args._nf)
    if op == "ite":
        c, a, b = e.args
        ra, rb = a._nf, b._nf
        if ra.key() == rb.key():
            return ra
        return rf_ite(c, ra, rb, X.interval(e))
    if op == "floor":
        a = e.args._nf
        return RF(F1, ((_atom("floor", a.key(), payload=e, arg=a, iv=X.interval(e)), 1),))
    if op == "fn":
        name = e.args[0]
        args = [x._nf for x in e.args[1:]]
        if name == "sqrt":
            return rf_sqrt(args[0], e)
        if name == "cos" and args[0].coef < 0:
            args = [RF(-args[0].coef, args[0].mono, args[0].fac)]
        if name in ("sin", "erf", "atan", "erfinv") and args[0].coef < 0:
            args = [RF(-args[0].coef, args[0].mono, args[0].fac)]
            return RF(-F1, ((_atom("fn", (name,) + tuple(a.key() for a in args), payload=(name, args), iv=_odd_iv(name)), 1),))
        return RF(F1, ((_atom("fn", (name,) + tuple(a.key() for a in args), payload=(name, args), iv=X.interval(e)), 1),))
    raise TypeError(op)


def _signed(kind, k):
    return iv_sign(atom_iv(k) if kind == "m" else fac_iv(k)) is not None


def rf_ite(c, ra, rb, iv):
    """ite(c, k*a, k*b) = k * ite(c, a, b) for the common part k of known sign,
    so that equal piecewise values meet in one normal form however they were
    multiplied out."""
    if ra.coef == 0 or rb.coef == 0:
        r = rb if ra.coef == 0 else ra
        gm = {k: e for k, e in r.mono if _signed("m", k)}
        gf = {k: e for k, e in r.fac if _signed("f", k)}
        k0 = r.coef
    else:
        def common(a, b, kind):
            b = dict(b)
            out = {}
            for k, e in a:
                f = b.get(k)
                if f is None or (e > 0) != (f > 0) or not _signed(kind, k):
                    continue
                out[k] = min(e, f) if e > 0 else max(e, f)
            return out
        gm, gf = common(ra.mono, rb.mono, "m"), common(ra.fac, rb.fac, "f")
        k0 = abs(ra.coef)
    g = RF(k0, tuple(sorted(gm.items())), tuple(sorted(gf.items())))
    if g.key() == ONE.key():
        return RF(F1, ((_atom("ite", (c.id, ra.key(), rb.key()), payload=(c, ra, rb), iv=iv), 1),))
    inv = rf_pow(g, -1)
    ra, rb = rf_mul(ra, inv), rf_mul(rb, inv)
    if ra.key() == rb.key():
        return rf_mul(g, ra)
    ia, ib = rf_interval(ra), rf_interval(rb)
    lo, lo_o = (None, True) if ia[0] is None or ib[0] is None else min((ia[0], not ia[1]), (ib[0], not ib[1]))
    hi, hi_o = (None, True) if ia[2] is None or ib[2] is None else max((ia[2], not ia[3]), (ib[2], not ib[3]))
    if lo is not None:
        lo_o = ((lo, True) in ((ia[0], ia[1]), (ib[0], ib[1]))) and not ((lo, False) in ((ia[0], ia[1]), (ib[0], ib[1])))
    if hi is not None:
        hi_o = ((hi, True) in ((ia[2], ia[3]), (ib[2], ib[3]))) and not ((hi, False) in ((ia[2], ia[3]), (ib[2], ib[3])))
    sg, se = rf_sign(g), None
    if iv[0] is not None and iv[0] >= 0:
        se = 1
    elif iv[2] is not None and iv[2] <= 0:
        se = -1
    if sg and se:
        strict = iv_sign(iv) is not None
        if sg * se > 0 and (lo is None or lo < 0 or (lo == 0 and strict)):
            lo, lo_o = F0, strict
        elif sg * se < 0 and (hi is None or hi > 0 or (hi == 0 and strict)):
            hi, hi_o = F0, strict
    return rf_mul(g, RF(F1, ((_atom("ite", (c.id, ra.key(), rb.key()), payload=(c, ra, rb), iv=(lo, lo_o, hi, hi_o)), 1),)))


def _odd_iv(name):
    if name in ("sin",):
        return (-F1, False, F1, False)
    if name == "erf":
        return (-F1, True, F1, True)
    return X._TOP


_psqrt = {}


def poly_sqrt(p):
    """polynomial g with g*g == p, or None"""
    def half(m):
        r = []
        for k, e in m:
            if atoms[k].kind == "exp":
                e = Fraction(e) / 2
                r.append((k, int(e) if e.denominator == 1 else e))
            elif e % 2:
                return None
            else:
                r.append((k, e // 2))
        return tuple(r)
    lead = max(p, key=_order)
    c = p[lead]
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    lm = half(lead)
    if n * n != c.numerator or d * d != c.denominator or lm is None:
        return None
    c0 = Fraction(n, d)
    g = {lm: c0}
    rem = dict(p)
    del rem[lead]
    inv = mono_pow(lm, -1)
    for _ in range(len(p)):
        if not rem:
            return g
        lr = max(rem, key=_order)
        t = mono_mul(lr, inv)
        if any(x < 0 for _, x in t) or t in g:
            return None
        ct = rem[lr] / (2 * c0)
        for m, v in list(g.items()):
            mm = mono_mul(m, t)
            x = rem.get(mm, F0) - 2 * v * ct
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
        m2 = mono_mul(t, t)
        x = rem.get(m2, F0) - ct * ct
        if x == 0:
            rem.pop(m2, None)
        else:
            rem[m2] = x
        g[t] = ct
        if len(rem) > len(p) * 2:
            return None
    return g if not rem else None


def rf_sqrt(a, e):
    if a.coef == 0:
        return ZERO
    c, mono, fac = a.coef, a.mono, a.fac
    nf_ = {}
    for k, x in fac:
        if x % 2:
            if k not in _psqrt:
                _psqrt[k] = poly_sqrt(factors[k])
            g = _psqrt[k]
            if g is not None:
                k, x = factor_of(g), 2 * x
        nf_[k] = nf_.get(k, 0) + x
    fac = tuple(sorted((k, x) for k, x in nf_.items() if x))
    out_m, in_m = [], []
    for k, x in mono:
        at = atoms[k]
        if at.kind == "exp":
            out_m.append((k, Fraction(x) / 2))
        elif x % 2 == 0 and iv_sign(at.iv) == 1:
            out_m.append((k, x // 2))
        else:
            in_m.append((k, x))
    out_f, in_f = [], []
    for k, x in fac:
        if x % 2 == 0 and iv_sign(fac_iv(k)) is not None:
            s = iv_sign(fac_iv(k))
            out_f.append((k, x // 2))
            if s == -1 and (x // 2) % 2:
                pass
        else:
            in_f.append((k, x))
    sgn = 1
    for k, x in fac:
        if x % 2 == 0 and iv_sign(fac_iv(k)) == -1 and (x // 2) % 2:
            sgn = -sgn
    oc, ic = F1, c
    if c > 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            oc, ic = Fraction(n, d), F1
    out = RF(oc * sgn, tuple(out_m), tuple(out_f))
    inner = RF(ic, tuple(in_m), tuple(in_f))
    if inner.key() == ONE.key():
        return out
    at = _atom("sqrt", inner.key(), payload=None, arg=inner, iv=(F0, rf_sign(inner) == 1, None, True))
    return rf_mul(out, RF(F1, ((at, 1),)))


def poly_terms(r):
    """RF -> list of (coef, mono, fac) whose sum is r, expanding positive factors"""
    neg = tuple((k, e) for k, e in r.fac if e < 0)
    pos = tuple((k, e) for k, e in r.fac if e > 0)
    return [(c, m, neg) for m, c in expand(RF(r.coef, r.mono, pos)).items()]


def rf_exp(a):
    if a.coef == 0:
        return ONE
    out = ONE
    terms = [(a.coef, a.mono, a.fac)] if any(e < 0 for _, e in a.fac) else poly_terms(a)
    for c, m, fac in terms:
        # integer multiples of a single log atom
        if not fac and len(m) == 1 and m[0][1] == 1 and atoms[m[0][0]].kind in ("log", "prime") and c.denominator == 1:
            at = atoms[m[0][0]]
            if at.kind == "prime":
                out = rf_mul(out, RF(Fraction(at.payload) ** int(c)))
            else:
                out = rf_mul(out, rf_pow(at.arg, int(c)))
            continue
        if not m and not fac:
            out = rf_mul(out, _const_exp(c) if c.denominator != 1 else _e_power(c))
            continue
        unit = RF(F1, m, fac)
        iv = rf_interval(unit)
        lo = (F0, True)
        hi = (None, True)
        if iv[0] is not None and iv[0] >= 0:
            lo = (F1, iv[1] if iv[0] == 0 else True)
        if iv[2] is not None and iv[2] <= 0:
            hi = (F1, iv[3] if iv[2] == 0 else True)
        at = _atom("exp", (m, fac), arg=unit, iv=(lo[0], lo[1], hi[0], hi[1]))
        e = int(c) if c.denominator == 1 else c
        out = rf_mul(out, RF(F1, ((at, e),)))
    return out


def _snap(v):
    """values of constant subterms that are a dyadic number up to float32 rounding are that number"""
    k = round(v * 1024)
    return Fraction(k, 1024) if abs(v - k / 1024) < 2e-7 and k != 0 and abs(v) < 1e4 else None


def _const_exp(c):
    """exp(c), c a non-integer constant: an atom with a tight interval"""
    if abs(c) > 600:
        raise TooBig()
    k = _snap(math.exp(float(c)))
    if k is not None:
        return RF(k)
    if c.denominator <= 64:
        return _e_power(c)
    # constants a simple fraction apart share one atom, so that their quotients are powers of e
    for b in _kexp_bases:
        for n, d in ((1, c - b), (-1, c + b)):
            if d.denominator <= 64 and d != 0 and abs(d) < 100:
                return rf_mul(RF(F1, ((_kexp_bases[b], n if b > 0 else -n),)), _e_power(d))
    n, c = (-1, -c) if c < 0 else (1, c)
    v = math.exp(c)
    e = Fraction(v) * Fraction(1, 10**13)
    at = _atom("kexp", c, payload=v, arg=RF(c), iv=(Fraction(v) - e, True, Fraction(v) + e, True))
    _kexp_bases[c] = at
    _kexp_bases[-c] = at
    return RF(F1, ((at, n),))


_kexp_bases = {}


def _e_power(d):
    """e**d for a rational d"""
    at = _atom("exp", ((), ()), arg=RF(F1), iv=(Fraction(27182818284590452, 10**16), True, Fraction(27182818284590453, 10**16), True))
    return RF(F1, ((at, int(d) if d.denominator == 1 else d),))


_primes_cache = {}


def _factor_int(n):
    r = _primes_cache.get(n)
    if r is not None:
        return r
    out = {}
    m = n
    p = 2
    while p * p <= m and p < 2000:
        while m % p == 0:
            out[p] = out.get(p, 0) + 1
            m //= p
        p += 1
    if m > 1:
        out[m] = out.get(m, 0) + 1
    _primes_cache[n] = out
    return out


def rf_log(a):
    s = rf_sign(a)
    if s == 1 and (a.mono or a.fac):
        iv = rf_interval(a)
        if iv[0] is not None and iv[2] is not None and iv[0] > 0 and (iv[2] - iv[0]) < iv[0] * Fraction(1, 10**9):
            k = _snap(math.log((iv[0] + iv[2]) / 2))
            if k is not None:
                return RF(k)
    if s == 1:
        terms = []
        c = a.coef
        sign_fix = 1
        if c < 0:
            sign_fix = -1
            c = -c
        for p, k in _factor_int(c.numerator).items():
            terms.append(RF(Fraction(k), ((_prime(p), 1),)))
        for p, k in _factor_int(c.denominator).items():
            terms.append(RF(Fraction(-k), ((_prime(p), 1),)))
        for k, e in a.mono:
            at = atoms[k]
            if at.kind in ("exp", "kexp"):
                u = at.arg
                terms.append(RF(u.coef * e, u.mono, u.fac))
            elif iv_sign(at.iv) == 1:
                terms.append(RF(Fraction(e), ((_log_atom(RF(F1, ((k, 1),))), 1),)))
            else:   # negative atom: log(-t)
                terms.append(RF(Fraction(e), ((_log_atom(RF(-F1, ((k, 1),))), 1),)))
        for fi, e in a.fac:
            sg = iv_sign(fac_iv(fi))
            terms.append(RF(Fraction(e), ((_log_atom(RF(Fraction(sg), (), ((fi, 1),))), 1),)))
        return rf_add(terms)
    return RF(F1, ((_log_atom(a), 1),))


def _prime(p):
    v = math.log(p)
    return _atom("prime", p, payload=p, iv=(Fraction(v) - Fraction(1, 10**12), True, Fraction(v) + Fraction(1, 10**12), True))


def _log_atom(r):
    iv = rf_interval(r)
    lo = hi = None
    lo_o = hi_o = True
    if iv[0] is not None and iv[0] >= 1:
        lo, lo_o = F0, (iv[1] if iv[0] == 1 else True)
    if iv[2] is not None and 0 < iv[2] <= 1:
        hi, hi_o = F0, (iv[3] if iv[2] == 1 else True)
    return _atom("log", r.key(), arg=r, iv=(lo, lo_o, hi, hi_o))
