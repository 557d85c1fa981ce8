"""Behaviour-preserving rewrites of the whole library, to see that the checks stay quiet: restyle.py TREE VARIANT"""
import ast, glob, os, sys

METH = {"sum", "mean", "exp", "log", "sigmoid", "cumsum", "abs", "clamp", "reshape", "nansum", "nanmean", "any", "all", "sqrt", "var", "argmax", "argmin",
        "repeat_interleave", "flatten", "squeeze", "unsqueeze", "isnan", "nonzero", "gather", "median", "diag", "transpose", "index_select", "flip", "softmax", "log_softmax",
        "round", "sort", "std", "prod", "tanh", "relu", "matmul", "diff", "bmm", "permute", "logsumexp", "clone", "detach", "float_"}
NOTTENSOR = {"torch", "np", "F", "pd", "px", "go", "self", "super", "logger", "nn", "math", "random", "plt", "data_frame", "df", "results_df", "mp", "itertools", "os", "copy"}


def root(n):
    while isinstance(n, (ast.Attribute, ast.Call, ast.Subscript)):
        n = n.func if isinstance(n, ast.Call) else n.value
    return n.id if isinstance(n, ast.Name) else None


def T(name, *args, kw=()):
    return ast.Call(ast.Attribute(ast.Name("torch", ast.Load()), name, ast.Load()), list(args), list(kw))


class Functional(ast.NodeTransformer):
    """x.f(...) -> torch.f(x, ...); operators -> functions"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in METH and root(n.func.value) not in NOTTENSOR - {"self"}:
            v = n.func.value
            if isinstance(v, ast.Name) and v.id == "self" or (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in ("self", "torch") and v.attr in ("model", "scale", "linalg")):
                return n
            if root(v) in ("torch", "np") and not isinstance(v, (ast.Call, ast.Subscript)):
                return n
            if n.func.attr == "permute" and not isinstance(n.args[0], ast.Tuple):
                return T("permute", v, ast.Tuple(n.args, ast.Load()))
            if n.func.attr == "reshape" and not (len(n.args) == 1 and isinstance(n.args[0], (ast.Tuple, ast.Name, ast.Attribute))):
                return T("reshape", v, ast.Tuple(n.args, ast.Load()))
            return T(n.func.attr, v, *n.args, kw=n.keywords)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult):
            return T("matmul", n.left, n.right)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Call)):
            return T("square", n.left) if not isinstance(n.left, ast.Constant) else n
        if isinstance(n.op, ast.BitAnd):
            return T("logical_and", n.left, n.right)
        if isinstance(n.op, ast.BitOr):
            return T("logical_or", n.left, n.right)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Invert):
            return T("logical_not", n.operand)
        return n


class Methods(ast.NodeTransformer):
    """torch.f(x, ...) -> x.f(...); view <-> reshape; indexing instead of unsqueeze; other spellings"""
    NAMES = {"cat": "concat", "ger": "outer", "multiply": "mul"}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "torch":
            if f.attr in METH | {"where", "max", "min", "outer", "isinf", "isfinite", "log1p", "expm1", "lt", "gt", "eq"} - {"where", "max", "min"} and n.args and not isinstance(n.args[0], (ast.Constant, ast.Starred, ast.List, ast.Tuple)):
                return ast.Call(ast.Attribute(n.args[0], f.attr, ast.Load()), n.args[1:], n.keywords)
            if f.attr == "where" and len(n.args) == 3:
                return T("where", T("logical_not", n.args[0]), n.args[2], n.args[1])
            if f.attr in self.NAMES:
                f.attr = self.NAMES[f.attr]
            return n
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "F" and f.attr in ("softmax", "log_softmax"):
            return T(f.attr, *n.args, kw=n.keywords)
        if isinstance(f, ast.Attribute) and root(f.value) not in NOTTENSOR - {"self"}:
            if f.attr == "view" and n.args and not (isinstance(n.args[0], ast.Attribute) and n.args[0].attr.startswith("int")):
                f.attr = "reshape"
            elif f.attr == "unsqueeze" and len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and n.args[0].value in (0, 1, -1):
                none, full = ast.Constant(None), ast.Slice()
                ix = {0: none, 1: ast.Tuple([full, none], ast.Load()), -1: ast.Tuple([ast.Constant(...), none], ast.Load())}[n.args[0].value]
                return ast.Subscript(f.value, ix, ast.Load())
            elif f.attr == "T":
                pass
            elif f.attr == "repeat" and len(n.args) > 1:
                return T("tile", f.value, ast.Tuple(n.args, ast.Load()))
            elif f.attr == "clamp" and n.keywords and len(n.keywords) == 1 and not n.args:
                k = n.keywords[0]
                return T({"min": "maximum", "max": "minimum"}[k.arg], f.value, T("as_tensor", k.value)) if k.arg in ("min", "max") and isinstance(k.value, ast.Constant) and isinstance(k.value.value, float) else n
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "T" and isinstance(n.ctx, ast.Load) and root(n.value) not in ("np", "df"):
            return ast.Call(ast.Attribute(n.value, "transpose", ast.Load()), [ast.Constant(0), ast.Constant(1)], [])
        return n


class Temps(ast.NodeTransformer):
    """locals renamed, return values and conditions put in temporaries, comparisons turned round, loops over enumerate as index loops"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set()) | ({n.args.kwarg.arg} if n.args.kwarg else set())
        nested = [c for c in ast.walk(n) if isinstance(c, (ast.FunctionDef, ast.Lambda)) and c is not n]
        if nested or any(isinstance(c, (ast.Nonlocal, ast.Global)) for c in ast.walk(n)):
            return n
        loc = {c.id for c in ast.walk(n) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)} - params
        handlers = {c.name for c in ast.walk(n) if isinstance(c, ast.ExceptHandler)}
        for c in ast.walk(n):
            if isinstance(c, ast.Name) and c.id in loc - handlers:
                c.id = c.id + "_v"
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("out_value", ast.Store())], n.value), ast.Return(ast.Name("out_value", ast.Load()))]

    def visit_Compare(self, n):
        self.generic_visit(n)
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in flip:
            return ast.Compare(n.comparators[0], [flip[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


def main():
    tree, variant = sys.argv[1:3]
    tr = {"functional": Functional, "methods": Methods, "temps": Temps}[variant]
    for f in glob.glob(os.path.join(tree, "irtorch/**/*.py"), recursive=True):
        if os.path.basename(f) in ("__init__.py", "load_dataset.py", "timer.py", "config.py"):
            continue
        if variant != "temps" and os.path.basename(f) in ("plotter.py",):
            continue
        t = tr().visit(ast.parse(open(f).read()))
        ast.fix_missing_locations(t)
        s = ast.unparse(t)
        if "import torch" not in s:
            continue
        open(f, "w").write(s + "\n")


main()
