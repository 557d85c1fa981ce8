"""Deciding formulas: normal form + case splitting + z3 (with exp/log axioms
added on demand).  Every verdict 'holds' is an unsat answer of the SMT solver
for the (regenerated) negated obligation; every counterexample comes from a
satisfying assignment that is re-evaluated with the true transcendental
functions before it is reported."""
from __future__ import annotations
import math
import random
import os
import time
from fractions import Fraction
from . import expr as X
from . import poly as P
import z3

F0, F1 = Fraction(0), Fraction(1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.leaves = 0
        self.axioms = 0
        self.cvc5 = 0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    case_split_leaves=self.leaves, axiom_instances=self.axioms, solver_s=round(self.solver_s, 3))


STATS = Stats()


def q(fr):
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}" if fr.denominator != 1 else str(fr.numerator))


class Enc:
    """One query's encoding into z3."""

    def __init__(self):
        self.side = []          # definitional constraints
        self.avar = {}          # atom idx -> z3 var (for exp: of the root unit)
        self.expD = {}          # exp atom idx -> D
        self.bvars = {}
        self.cmemo = {}
        self.expargs = {}       # exp atom idx -> z3 term of unit argument (lazily)
        self.logargs = {}
        self.vars = {}          # var name -> z3 var
        self.alias = {}

    # -- collect rational exponents so that exp atoms get a common root
    def prepare(self, rfs):
        seen_f = set()
        seen_a = set()
        def mono(m):
            for k, e in m:
                a = P.atoms[k]
                if a.kind == "exp":
                    d = Fraction(e).denominator
                    self.expD[k] = math.lcm(self.expD.get(k, 1), d)
                if k not in seen_a:
                    seen_a.add(k)
                    if a.kind == "ite":
                        c, x, y = a.payload
                        cond(c)
                        rf(x)
                        rf(y)
                    elif a.kind in ("sqrt", "log", "floor"):
                        rf(a.arg)
                    # exp args are prepared lazily
        def rf(r):
            mono(r.mono)
            for fi, _ in r.fac:
                if fi not in seen_f:
                    seen_f.add(fi)
                    for m in P.factors[fi]:
                        mono(m)
        seen_c = set()
        def cond(c):
            for t in X.topo([c]):
                if t.id in seen_c:
                    continue
                seen_c.add(t.id)
                if t.op in ("le", "lt", "eq"):
                    rf(P.nf(t.args))
        for r in rfs:
            if isinstance(r, P.RF):
                rf(r)
            else:
                cond(r)

    def atom(self, k):
        v = self.avar.get(k)
        if v is not None:
            return v
        a = P.atoms[k]
        if a.kind == "v":
            name = a.payload.args
            d = X.VARS[name]
            v = z3.Real(name)
            self.vars[name] = v
            if d["lo"] is not None:
                self.side.append(v > q(d["lo"]) if d["lo_open"] else v >= q(d["lo"]))
            if d["hi"] is not None:
                self.side.append(v < q(d["hi"]) if d["hi_open"] else v <= q(d["hi"]))
            if d["integer"]:
                if d["lo"] is not None and d["hi"] is not None and d["hi"] - d["lo"] <= 24:
                    self.side.append(z3.Or([v == i for i in range(int(d["lo"]), int(d["hi"]) + 1)]))
                else:
                    self.side.append(z3.IsInt(v))
        elif a.kind == "exp":
            v = z3.Real(f"E!{k}")
            self.side.append(v > 0)
            D = self.expD.get(k, 1)
            if a.iv[0] is not None and a.iv[0] >= 1:
                self.side.append(v >= 1)
            if a.iv[2] is not None and a.iv[2] <= 1:
                self.side.append(v <= 1)
        elif a.kind == "ite":
            c, x, y = a.payload
            v = z3.Real(f"I!{k}")
            self.avar[k] = v
            cz = self.cond(c)
            self.side.append(z3.Implies(cz, self.rf_rel(x, v)))
            self.side.append(z3.Implies(z3.Not(cz), self.rf_rel(y, v)))
            self._bound(v, a.iv)
        elif a.kind == "log":
            v = z3.Real(f"L!{k}")
            self._bound(v, a.iv)
            self.logargs[k] = a.arg
        elif a.kind == "kexp":
            v = z3.Real(f"K!{k}")
            self._bound(v, a.iv)
        elif a.kind == "prime":
            v = z3.Real(f"logp!{a.payload}")
            self._bound(v, a.iv)
        elif a.kind == "sqrt":
            v = z3.Real(f"S!{k}")
            self.avar[k] = v
            self.side.append(v >= 0)
            self.side.append(self.rf_rel(a.arg, v * v))
        elif a.kind == "floor":
            iv_ = z3.Int(f"Fl!{k}")
            v = z3.ToReal(iv_)
            self.avar[k] = v
            num, den = self.rf_frac(a.arg)
            w = z3.Real(f"Fa!{k}")
            self.side.append(self.rf_rel(a.arg, w))
            self.side.append(z3.And(v <= w, w < v + 1))
        else:
            v = z3.Real(f"U!{k}")
            self._bound(v, a.iv)
        self.avar[k] = v
        return v

    def _bound(self, v, iv):
        if iv[0] is not None:
            self.side.append(v > q(iv[0]) if iv[1] else v >= q(iv[0]))
        if iv[2] is not None:
            self.side.append(v < q(iv[2]) if iv[3] else v <= q(iv[2]))

    def mono(self, m, neg=False):
        """product of the positive-exponent (or, if neg, inverse of negative-exponent) part"""
        out = []
        for k, e in m:
            if neg:
                e = -e
            if e <= 0:
                continue
            v = self.atom(k)
            if P.atoms[k].kind == "exp":
                e = e * self.expD.get(k, 1)
            e = int(e)
            if e > 400:
                raise P.TooBig()
            out.extend([v] * e)
        return out

    def poly(self, p):
        ts = []
        for m, c in p.items():
            fs = self.mono(m)
            if any(e < 0 for _, e in m):
                raise P.TooBig()
            if not fs:
                ts.append(q(c))
            elif c == 1:
                ts.append(z3.Product(fs) if len(fs) > 1 else fs[0])
            else:
                ts.append(z3.Product([q(c)] + fs))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def rf_frac(self, r):
        """(numerator, denominator) z3 terms"""
        if r.coef == 0:
            return q(F0), None
        num, den = [], []
        num += self.mono(r.mono)
        den += self.mono(r.mono, neg=True)
        for fi, e in r.fac:
            p = self.poly(P.factors[fi])
            (num if e > 0 else den).extend([p] * abs(e))
        n = z3.Product([q(r.coef)] + num) if num else q(r.coef)
        d = None if not den else (z3.Product(den) if len(den) > 1 else den[0])
        return n, d

    def rf_rel(self, r, v):
        """r == v"""
        n, d = self.rf_frac(r)
        return n == v if d is None else n == v * d

    def rf_cmp(self, r, op):
        """r op 0 (op in le, lt, eq), denominators are nonzero by construction"""
        if r.coef == 0:
            return z3.BoolVal(op != "lt")
        s = P.rf_sign(r)
        if s is not None:
            return z3.BoolVal({"le": s <= 0, "lt": s < 0, "eq": False}[op])
        sign = 1 if r.coef > 0 else -1
        parts = []
        if op == "eq":
            for k, e in r.mono:
                if e > 0 and P.iv_sign(P.atom_iv(k)) is None:
                    parts.append(self.atom(k) == 0)
            for fi, e in r.fac:
                if e > 0 and P.iv_sign(P.fac_iv(fi)) is None:
                    parts.append(self.poly(P.factors[fi]) == 0)
            return z3.Or(parts) if parts else z3.BoolVal(False)
        nonzero = []
        for k, e in r.mono:
            t = P.iv_sign(P.atom_iv(k))
            odd = (e % 2 == 1)
            if t is not None:
                if odd:
                    sign *= t
                continue
            v = self.atom(k)
            if odd:
                parts.append(v)
            elif e > 0:
                nonzero.append(v)
        for fi, e in r.fac:
            t = P.iv_sign(P.fac_iv(fi))
            odd = (e % 2 == 1)
            if t is not None:
                if odd:
                    sign *= t
                continue
            v = self.poly(P.factors[fi])
            if odd:
                parts.append(v)
            elif e > 0:
                nonzero.append(v)
        prod = z3.Product(parts) if len(parts) > 1 else (parts[0] if parts else q(F1))
        if op == "le":
            base = prod <= 0 if sign > 0 else prod >= 0
            return z3.Or([base] + [v == 0 for v in nonzero]) if nonzero else base
        base = prod < 0 if sign > 0 else prod > 0
        return z3.And([base] + [v != 0 for v in nonzero]) if nonzero else base

    def cond(self, c):
        r = self.cmemo.get(c.id)
        if r is not None:
            return r
        op = c.op
        if op == "b":
            r = z3.BoolVal(c.args)
        elif op == "bv":
            r = self.bvars.get(c.args)
            if r is None:
                r = self.bvars[c.args] = z3.Bool("b!" + c.args)
        elif op == "not":
            r = z3.Not(self.cond(c.args))
        elif op == "and":
            r = z3.And([self.cond(x) for x in c.args])
        elif op == "or":
            r = z3.Or([self.cond(x) for x in c.args])
        else:
            r = self.rf_cmp(P.nf(c.args), op)
        self.cmemo[c.id] = r
        return r

    # -- lazily linked transcendental arguments
    def exp_arg(self, k):
        """z3 term for  arg/D  of exp atom k  (the atom's z3 var is exp(arg/D))"""
        a = P.atoms[k]
        t = self.expargs.get(k)
        if t is None:
            D = self.expD.get(k, 1)
            u = z3.Real(f"u!{k}")
            r = P.RF(a.arg.coef / D, a.arg.mono, a.arg.fac)
            self.side.append(self.rf_rel(r, u))
            self.expargs[k] = t = u
        return t

    def log_arg(self, k):
        t = self.expargs.get(("l", k))
        if t is None:
            u = z3.Real(f"w!{k}")
            self.side.append(self.rf_rel(P.atoms[k].arg, u))
            self.expargs[("l", k)] = t = u
        return t


def _val(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(20)
    if z3.is_int_value(r):
        return Fraction(r.as_long())
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    return F0


def exp_bounds(x: Fraction):
    """rational enclosure of exp(x)"""
    f = math.exp(float(x)) if x < 700 else None
    if f is None or f == 0.0:
        return None
    fr = Fraction(f)
    return fr * (1 - Fraction(1, 10**9)), fr * (1 + Fraction(1, 10**9))


def load_factor():
    """how much longer things take because the machine is busy"""
    try:
        return min(4.0, max(1.0, os.getloadavg()[0] / (os.cpu_count() or 1)))
    except OSError:
        return 1.0


def _check(s, timeout_ms):
    s.set("timeout", int(timeout_ms * load_factor()))
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t
    STATS.queries += 1
    STATS.solver_s += dt
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", s.model()
    STATS.unknown += 1
    return "unknown", None


def _solver(kind):
    if kind == "nra":
        return z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat").solver()
    return z3.Solver()


class Result:
    def __init__(self, verdict, env=None, note=""):
        self.verdict = verdict      # 'unsat' | 'sat' | 'unknown'
        self.env = env
        self.note = note

    def __repr__(self):
        return f"Result({self.verdict}, {self.env}, {self.note})"


def _axioms(enc, model, level, used):
    """new axiom instances about exp/log atoms violated (or potentially
    helpful) at this model; returns list of z3 formulas."""
    out = []
    exps = [k for k in list(enc.avar) if P.atoms[k].kind == "exp"]
    logs = [k for k in list(enc.avar) if P.atoms[k].kind == "log"]
    def new(key, f):
        if key not in used:
            used.add(key)
            out.append(f)
    vals = {}
    for k in exps:
        u = enc.exp_arg(k)
        t = enc.avar[k]
        new(("es", k), z3.And((u > 0) == (t > 1), (u < 0) == (t < 1)))
        new(("et", k), t >= u + 1)
        vals[("e", k)] = (u, t)
    for k in logs:
        w = enc.log_arg(k)
        L = enc.avar[k]
        # only meaningful for positive arguments
        new(("ls", k), z3.Implies(w > 0, z3.And((L > 0) == (w > 1), (L < 0) == (w < 1), L <= w - 1)))
        vals[("l", k)] = (L, w)
    if level >= 1 and len(vals) <= 24:
        ks = list(vals)
        for i in range(len(ks)):
            for j in range(i):
                (u1, t1), (u2, t2) = vals[ks[i]], vals[ks[j]]
                g = []
                if ks[i][0] == "l":
                    g.append(t1 > 0)
                if ks[j][0] == "l":
                    g.append(t2 > 0)
                f = z3.And((u1 < u2) == (t1 < t2), (u1 == u2) == (t1 == t2))
                new(("m", ks[i], ks[j]), z3.Implies(z3.And(g), f) if g else f)
    if model is not None and level >= 1:
        for key, (u, t) in vals.items():
            uv, tv = _val(model, u), _val(model, t)
            if abs(uv) < 200:
                uf = uv.limit_denominator(1000)
                b = exp_bounds(uf)
                if b is None:
                    continue
                lo, hi = b
                g = (t > 0) if key[0] == "l" else z3.BoolVal(True)
                if tv < lo or tv > hi:
                    # tangent from below at uf; chord / point bound
                    n = len([1 for x in used if x[:2] == ("tp", key)])
                    if n < 40:
                        new(("tp", key, uf), z3.Implies(g, z3.And(
                            t >= q(lo) * (1 + u - q(uf)),
                            z3.Implies(u <= q(uf), t <= q(hi)), z3.Implies(u >= q(uf), t >= q(lo)),
                            # upper bound near the point: exp(u) <= hi/(1-(u-uf)) for u-uf<1
                            z3.Implies(u - q(uf) < 1, t * (1 - (u - q(uf))) <= q(hi)))))
    STATS.axioms += len(out)
    return out


def _arg_signs(formulas, enc, timeout_ms=400):
    """signs of the arguments of exp / log atoms under the cheap part of the formulas, each
    decided by its own small query.  -> {atom: interval}, [z3 facts]"""
    over, facts = {}, []
    base = [f for f in formulas if not any(t.op in ("ite", "log", "fn", "floor") for t in X.topo([f]))
            and len(X.topo([f])) < 60]
    for k in list(enc.avar):
        a = P.atoms[k]
        if a.kind not in ("exp", "log"):
            continue
        lo, lo_o, hi, hi_o = a.iv
        if a.kind == "exp":
            if (lo is not None and lo >= 1) or (hi is not None and hi <= 1):
                continue
            arg, pivot = a.arg, F0
        else:
            if P.rf_sign(a.arg) != 1 or (lo is not None and lo >= 0) or (hi is not None and hi <= 0):
                continue
            arg, pivot = a.arg, F1
        if not arg.fac and len(arg.mono) <= 1:
            continue      # sign of a single variable: free
        for sgn in (1, -1):
            e2 = Enc()
            try:
                e2.prepare(base)
                zs = [e2.cond(f) for f in base]
                u = z3.Real("u?")
                e2.side.append(e2.rf_rel(arg, u))
                ax = _axioms(e2, None, 0, set()) + [u < q(pivot) if sgn > 0 else u > q(pivot)]
            except P.TooBig:
                break
            v = "unknown"
            for kind in ("smt", "nra"):
                s = _solver(kind)
                s.add(*zs, *e2.side, *ax)
                v, _ = _check(s, timeout_ms)
                if v != "unknown":
                    break
            if v == "unsat":
                c = F1 if a.kind == "exp" else F0
                if sgn > 0:
                    over[k] = (c, False, hi, hi_o)
                    facts.append(enc.avar[k] >= q(c))
                else:
                    over[k] = (lo, lo_o, c, False)
                    facts.append(enc.avar[k] <= q(c))
                break
    return over, facts


def _refuted_by_intervals(formulas, over):
    """some formula is false for every value of the atoms in the refined intervals"""
    if not over:
        return False
    saved = {k: P.atoms[k].iv for k in over}
    fi = dict(P.factor_iv)
    P.factor_iv.clear()
    try:
        for k, iv in over.items():
            P.atoms[k].iv = iv
        for f in formulas:
            neg = f.op == "not"
            g = f.args if neg else f
            if g.op not in ("le", "lt", "eq"):
                continue
            try:
                iv = P.rf_interval(P.nf(g.args))
            except (P.TooBig, ZeroDivisionError):
                continue
            lo, lo_o, hi, hi_o = iv
            pos = lo is not None and (lo > 0 or (lo == 0 and lo_o))
            nonneg = lo is not None and lo >= 0
            npos = hi is not None and hi <= 0
            negv = hi is not None and (hi < 0 or (hi == 0 and hi_o))
            if not neg and ((g.op == "le" and pos) or (g.op == "lt" and nonneg) or (g.op == "eq" and (pos or negv))):
                return True
            if neg and ((g.op == "le" and npos) or (g.op == "lt" and negv)):
                return True
        return False
    finally:
        for k, iv in saved.items():
            P.atoms[k].iv = iv
        P.factor_iv.clear()
        P.factor_iv.update(fi)


def var_bounds(formulas):
    """intervals of single variables stated by conjuncts of the form  a*v + b <= / < 0"""
    over = {}
    for f in formulas:
        neg = f.op == "not"
        g = f.args if neg else f
        if g.op not in ("le", "lt"):
            continue
        t = g.args
        if len(X.free_vars([t])) != 1:
            continue
        try:
            r = P.nf(t)
        except (P.TooBig, ZeroDivisionError):
            continue
        k = a = b = None
        if len(r.mono) == 1 and not r.fac and r.mono[0][1] == 1:
            k, a, b = r.mono[0][0], r.coef, F0
        elif not r.mono and len(r.fac) == 1 and r.fac[0][1] == 1:
            p = P.factors[r.fac[0][0]]
            if len(p) == 2 and () in p:
                (m,) = [m for m in p if m != ()]
                if len(m) == 1 and m[0][1] == 1:
                    k, a, b = m[0][0], p[m] * r.coef, p[()] * r.coef
        if k is None or P.atoms[k].kind != "v" or a == 0:
            continue
        c = -b / a
        upper = (a > 0) != neg
        strict = (g.op == "lt") != neg
        lo, lo_o, hi, hi_o = over.get(k, P.atoms[k].iv)
        if upper:
            if hi is None or c < hi or (c == hi and strict):
                hi, hi_o = c, strict
        elif lo is None or c > lo or (c == lo and strict):
            lo, lo_o = c, strict
        over[k] = (lo, lo_o, hi, hi_o)
    return over


def leaf(formulas, check_env, timeout_ms=4000, rounds=14, rng=None):
    """formulas: list of boolean Expr (conjunction).  check_env(env)->bool decides
    numerically whether an assignment is a true counterexample."""
    STATS.leaves += 1
    try:
        return _leaf(formulas, check_env, timeout_ms, rounds, rng)
    except P.TooBig:
        env = pin_search(formulas, sorted(set(X.free_vars(formulas))), check_env, rng)
        return Result("unknown", note="expression too large") if env is None else Result("sat", env)


def _leaf(formulas, check_env, timeout_ms, rounds, rng):
    enc = Enc()
    enc.prepare(formulas)
    zs = [enc.cond(f) for f in formulas]
    # quick path: pure NRA over atoms, no axioms.  exp atoms' arguments are
    # linked only when a model has to be refined.
    used = set()
    axioms = []
    level = 0
    signs_done = False
    names = sorted(set(X.free_vars(formulas)))
    for r in range(rounds):
        verdict, m = "unknown", None
        for kind in ("smt", "nra"):
            s = _solver(kind)
            s.add(*zs)
            s.add(*enc.side)
            s.add(*axioms)
            verdict, m = _check(s, timeout_ms)
            if verdict != "unknown":
                break
        if verdict == "unsat":
            return Result("unsat")
        if verdict == "unknown":
            env = pin_search(formulas, names, check_env, rng)
            if env is not None:
                return Result("sat", env)
            if not signs_done:
                signs_done = True
                over, facts = _arg_signs(formulas, enc)
                if _refuted_by_intervals(formulas, over):
                    return Result("unsat")
                if facts:
                    axioms += facts
                    continue
            if level == 0:
                axioms += _axioms(enc, None, 1, used)
                level = 1
                if axioms:
                    continue
            return Result("unknown", note="solver timeout")
        env = model_env(m, enc, names)
        if check_env(env):
            return Result("sat", env)
        if level == 0 and not signs_done:
            signs_done = True
            over, facts = _arg_signs(formulas, enc)
            if _refuted_by_intervals(formulas, over):
                return Result("unsat")
            if facts:
                axioms += facts
                continue
        new = _axioms(enc, m, level, used)
        if level == 0:
            level = 1
            new += _axioms(enc, m, 1, used)
        if not new:
            break
        axioms += new
        if r in (2, 6, 10):
            env = pin_search(formulas, names, check_env, rng)
            if env is not None:
                return Result("sat", env)
    env = pin_search(formulas, names, check_env, rng)
    if env is not None:
        return Result("sat", env)
    return Result("unknown", note="refinement did not converge")


def model_env(m, enc, names):
    env = {}
    for n in names:
        if n in X.VARS:
            v = enc.vars.get(n)
            if v is not None:
                env[n] = _val(m, v)
            else:
                env[n] = default_value(n)
        else:
            b = enc.bvars.get(n)
            env[n] = bool(z3.is_true(m.eval(b, model_completion=True))) if b is not None else False
    return env


def default_value(n):
    d = X.VARS[n]
    lo, hi = d["lo"], d["hi"]
    if lo is None and hi is None:
        return F0
    if lo is None:
        return min(F0, hi - 1)
    if hi is None:
        return max(F0, lo + 1)
    if d["integer"]:
        return lo
    return (lo + hi) / 2


def random_value(n, rng):
    d = X.VARS[n]
    lo, hi = d["lo"], d["hi"]
    if d["integer"]:
        lo = int(lo if lo is not None else -3)
        hi = int(hi if hi is not None else 3)
        return Fraction(rng.randint(lo, hi))
    lo = Fraction(-2) if lo is None else max(lo, Fraction(-1000))
    hi = max(lo + 3, Fraction(2)) if hi is None else hi
    # a rational with a small denominator inside the range
    for _ in range(20):
        x = lo + (hi - lo) * Fraction(rng.randint(1, 63), 64)
        if lo < x < hi:
            return x
    return lo


def pin_search(formulas, names, check_env, rng=None, tries=6, timeout_ms=1500):
    """counterexample search when the full query is undecided: fix some
    variables to rational values, ask the solver for the rest."""
    rng = rng or random.Random(1)
    num = [n for n in names if n in X.VARS]
    for t in range(tries):
        keep = 0 if t % 2 == 0 else min(2, len(num))
        order = num[:]
        rng.shuffle(order)
        pinned = {n: random_value(n, rng) for n in order[keep:]}
        mp = {X.var_ref(n): X.const(v) for n, v in pinned.items()}
        fs = X.subst(formulas, mp)
        if any(f is X.FALSE for f in fs):
            continue
        enc = Enc()
        enc.prepare(fs)
        try:
            zs = [enc.cond(f) for f in fs]
            ax = _axioms(enc, None, 1, set())
            # numeric enclosures for constant exp / log atoms
            for k, v in list(enc.avar.items()):
                a = P.atoms[k]
                if a.kind == "exp":
                    val = const_value(a.arg)
                    if val is not None:
                        b = exp_bounds(val / enc.expD.get(k, 1))
                        if b:
                            ax += [v >= q(b[0]), v <= q(b[1])]
                elif a.kind == "log":
                    val = const_value(a.arg)
                    if val is not None and val > 0:
                        x = Fraction(math.log(float(val)))
                        ax += [v >= q(x - Fraction(1, 10**9)), v <= q(x + Fraction(1, 10**9))]
        except P.TooBig:
            continue
        s = z3.Solver()
        s.add(*zs)
        s.add(*enc.side)
        s.add(*ax)
        verdict, m = _check(s, timeout_ms)
        if verdict == "sat":
            env = model_env(m, enc, names)
            env.update(pinned)
            if check_env(env):
                return env
    return None


def const_value(r):
    """RF without atoms other than constants -> Fraction or None"""
    if r.coef == 0:
        return F0
    if not r.mono and not r.fac:
        return r.coef
    return None


# ------------------------------------------------------------ case splitting
def _find_cond(formulas):
    """an atomic condition that guards some numeric ite (innermost first)."""
    counts = {}
    for e in X.topo(formulas):
        if e.op == "ite":
            c = e.args[0]
            for a in _atoms_of(c):
                counts[a] = counts.get(a, 0) + 1
    if not counts:
        return None
    # prefer conditions whose own argument contains no ite, then most frequent
    best, bk = None, None
    for a, n in counts.items():
        inner = any(t.op == "ite" for t in X.topo([a]))
        simple = a.op == "bv" or (a.op == "eq" and X._eq_var_const(a)[0] is not None)
        k = (not inner, simple, n, -a.id)
        if bk is None or k > bk:
            best, bk = a, k
    return best


def _simple(a):
    return a.op == "bv" or (a.op == "eq" and X._eq_var_const(a)[0] is not None)


def _atoms_of(c):
    out = []
    st = [c]
    while st:
        x = st.pop()
        if x.op in ("and", "or"):
            st.extend(x.args)
        elif x.op == "not":
            st.append(x.args)
        elif x.op in ("b",):
            pass
        else:
            out.append(x)
    return out


class SplitBudget(Exception):
    pass


_feas_cache = {}


def feasible(formulas, timeout_ms=400):
    """cheap satisfiability test (True unless proved unsat)"""
    formulas = [f for f in formulas if f is not X.TRUE]
    if any(f is X.FALSE for f in formulas):
        return False
    key = frozenset(f.id for f in formulas)
    if key in _feas_cache:
        return _feas_cache[key]
    enc = Enc()
    try:
        enc.prepare(formulas)
        zs = [enc.cond(f) for f in formulas]
        ax = []
        if any(P.atoms[k].kind in ("exp", "log") for k in enc.avar):
            ax = _axioms(enc, None, 1, set())
    except P.TooBig:
        return True
    s = z3.Solver()
    s.add(*zs)
    s.add(*enc.side)
    s.add(*ax)
    v, _ = _check(s, timeout_ms)
    r = v != "unsat"
    _feas_cache[key] = r
    return r


def _cheap(f):
    """formula free of ite / exp / log: usable for pruning"""
    for e in X.topo([f]):
        if e.op in ("ite", "exp", "log", "fn", "floor"):
            return False
    return True


def fold(formulas):
    """comparisons whose normal form already has a known sign become constants (ites stay opaque)"""
    mp = {}
    for e in X.topo(formulas):
        if e.op in ("le", "lt", "eq"):
            try:
                r = P.nf(e.args)
            except (P.TooBig, ZeroDivisionError):
                continue
            sg = 0 if r.coef == 0 else P.rf_sign(r)
            if sg is None:
                continue
            v = {"le": sg <= 0, "lt": sg < 0, "eq": sg == 0}[e.op]
            mp[e] = X.boolc(v)
            n = X.not_(e)
            if n.op != "not":
                mp[n] = X.boolc(not v)
    return X.subst(formulas, mp) if mp else formulas


class Decider:
    def __init__(self, formulas, check_env, budget=3000, timeout_ms=4000, rng=None, deadline=None):
        self.formulas = list(formulas)
        self.check_env0 = check_env
        self.left = budget
        self.timeout_ms = timeout_ms
        self.rng = rng or random.Random(1)
        self.deadline = deadline
        self.names = X.free_vars(self.formulas)
        self.ctx = []
        self.unknown = []

    def check_env(self, env):
        for v, val in self.ctx:
            env[v.args] = val
        for n in self.names:
            if n not in env:
                env[n] = default_value(n) if n in X.VARS else False
        return self.check_env0(env)

    def run(self):
        try:
            r = self.rec(fold(self.formulas), [])
        except SplitBudget:
            return Result("unknown", note="case-split budget exhausted")
        if r is not None:
            return r
        if self.unknown:
            return Result("unknown", note="; ".join(sorted(set(self.unknown))))
        return Result("unsat")

    def rec(self, fs, ctx, folded=False):
        # flatten conjunctions, drop TRUE
        out = {}
        st = list(fs)
        while st:
            f = st.pop()
            if f is X.FALSE:
                STATS.leaves += 1
                return None
            if f is X.TRUE:
                continue
            if f.op == "and":
                st.extend(f.args)
            else:
                out[f] = None
        fs = sorted(out, key=lambda e: e.id)
        if self.deadline is not None and time.time() > self.deadline:
            self.unknown.append("deadline")
            return None
        # propagate v == c
        for f in fs:
            if f.op == "eq":
                v, cst = X._eq_var_const(f)
                if v is not None:
                    d = X.VARS[v.args]
                    if (d["lo"] is not None and cst < d["lo"]) or (d["hi"] is not None and cst > d["hi"]):
                        STATS.leaves += 1
                        return None
                    rest = [g for g in fs if g is not f]
                    return self.rec(X.subst(rest, {v: X.const(cst)}), ctx + [(v, cst)])
            elif f.op == "bv" or (f.op == "not" and f.args.op == "bv"):
                b = f if f.op == "bv" else f.args
                rest = [g for g in fs if g is not f]
                if any(b.args in X.free_vars([g]) for g in rest):
                    return self.rec(X.subst(rest, {b: X.boolc(f.op == "bv")}), ctx + [(b, f.op == "bv")])
        c = _find_cond(fs)
        if c is None:
            self.left -= 1
            if self.left < 0:
                raise SplitBudget()
            saved = self.ctx
            self.ctx = ctx
            r = leaf(fs, self.check_env, timeout_ms=self.timeout_ms, rng=self.rng)
            if r.verdict == "sat":
                self.check_env(r.env)
                self.ctx = saved
                return r
            self.ctx = saved
            if r.verdict == "unknown":
                self.unknown.append(r.note)
            return None
        if not folded and not _simple(c):
            if _refuted_by_intervals(fs, var_bounds(fs)):
                STATS.leaves += 1
                return None
            nf = fold(fs)
            if nf is not fs:
                return self.rec(nf, ctx, True)
            folded = True
        for val in (True, False):
            if c.op == "bv":
                r = self.rec(X.subst(fs, {c: X.boolc(val)}), ctx + [(c, val)])
            else:
                lit = c if val else X.not_(c)
                mp = {c: X.boolc(val)}
                n = X.not_(c)
                if n.op != "not":
                    mp[n] = X.boolc(not val)
                nfs = X.subst(fs, mp)
                if not feasible([f for f in nfs if _cheap(f)] + [lit]):
                    STATS.leaves += 1
                    continue
                r = self.rec(nfs + [lit], ctx, folded and not _simple(c))
            if r is not None:
                return r
        return None


def decide(formulas, check_env, **kw):
    return Decider(formulas, check_env, **kw).run()
