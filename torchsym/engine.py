"""Path exploration: forks on symbolic branch conditions (DFS over decision
prefixes, infeasible branches pruned by the solver)."""
from __future__ import annotations
from fractions import Fraction
from . import expr as X
from . import solve as S
from .elem import EngineError


class PathEnd(BaseException):
    """path abandoned (assumption false)"""


def draw_name(tag, n, lo, hi):
    """draws with different ranges (on different paths) are different variables"""
    end = lambda x: "" if x is None else f"{float(x):.5g}" if Fraction(x).denominator > 1 else Fraction(x)
    return f"{tag}_{n}" if lo is None and hi is None else f"{tag}{end(lo)}:{end(hi)}_{n}"


class Engine:
    def __init__(self):
        self.active = False
        self.reset_paths()
        self.decomps = set()
        self.ops_seen = {}
        self.fresh = 0

    def reset_paths(self):
        self.prefix = []
        self.pos = 0
        self.pc = []
        self.known = {}
        self.pending = []
        self.forks = 0
        self.choices = []
        self.fresh = 0
        self.stub_calls = []
        self.randoms = []

    def note_decomp(self, name):
        self.decomps.add(name)

    def note_stub(self, name, info):
        self.stub_calls.append((name, info))

    def fresh_var(self, tag, **kw):
        self.fresh += 1
        if self.fresh > 4000:
            raise EngineError("too many random values")
        name = draw_name(tag, self.fresh, kw.get("lo"), kw.get("hi"))
        v = X.var(name, **kw)
        self.randoms.append((v, tag))
        return v

    def start_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pc = []
        self.known = {}
        self.choices = []
        self.fresh = 0
        self.stub_calls = []
        self.randoms = []

    def assume(self, c):
        c = self.simp(c)
        if c is X.TRUE:
            return
        if c is X.FALSE:
            raise PathEnd()
        self.pc.append(c)
        self._learn(c)

    def _learn(self, c):
        st = [c]
        while st:
            x = st.pop()
            if x.op == "and":
                st.extend(x.args)
                continue
            self.known[x] = X.TRUE
            n = X.not_(x)
            self.known[n] = X.FALSE
            if x.op == "not" and x.args.op == "or":
                for y in x.args.args:
                    st.append(X.not_(y))
            if x.op == "eq":
                v, cst = X._eq_var_const(x)
                if v is not None:
                    self.known[v] = X.const(cst)

    def simp(self, c):
        if c.op in ("b",):
            return c
        if self.known:
            k = self.known.get(c)
            if k is not None:
                return k
            c = X.subst([c], self.known)[0]
        return c

    def fork(self, c):
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        c = self.simp(c)
        if c is X.TRUE:
            return True
        if c is X.FALSE:
            return False
        if not self.active:
            raise EngineError("symbolic branch outside of a harness run")
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            t = S.feasible(self.pc + [c], 1500)
            f = S.feasible(self.pc + [X.not_(c)], 1500)
            if t and f:
                self.forks += 1
                self.pending.append(self.choices + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathEnd()
            self.prefix = self.prefix + [d]
            self.pos += 1
        self.choices = self.choices + [d]
        lit = c if d else X.not_(c)
        self.pc.append(lit)
        self._learn(lit)
        return d

    def fork_int(self, e, limit=64):
        e = self.simp_num(e)
        if e.op == "c":
            return int(e.args)
        lo, _, hi, _ = X.interval(e)
        if lo is None or hi is None or hi - lo > limit:
            # ite leaves
            leaves = set()
            st = [e]
            while st:
                x = st.pop()
                if x.op == "ite":
                    st += [x.args[1], x.args[2]]
                elif x.op == "c":
                    leaves.add(int(x.args))
                else:
                    l2, _, h2, _ = X.interval(x)
                    if l2 is None or h2 is None or h2 - l2 > limit:
                        raise EngineError(f"integer value with unbounded range: {x}")
                    leaves.update(range(int(l2), int(h2) + 1))
            cand = sorted(leaves)
        else:
            cand = range(int(lo), int(hi) + 1)
        cand = list(cand)
        for k in cand[:-1]:
            if self.fork(X.eq(e, X.const(k))):
                return k
        self.assume_last(e, cand[-1])
        return cand[-1]

    def assume_last(self, e, k):
        if not self.fork(X.eq(e, X.const(k))):
            raise PathEnd()

    def simp_num(self, e):
        return X.subst([e], self.known)[0] if self.known else e


engine = Engine()
