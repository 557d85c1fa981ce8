"""Mutation testing of the checks: random small edits of the library in scratch copies are given to the checks whose
evidence lists the edited function; those no check reports are run against the repository's own tests. Prints the edits that survive both.

usage: mutate.py OUT.jsonl COUNT SEED [WORKERS] [FILE-SUBSTRING]"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_FILES = ("load_dataset", "timer", "config", "__init__")
SKIP_FUNCS = ("__repr__", "dynamic_print", "is_jupyter", "_generate_grayscale_colors", "plot_spline", "set_seed")
SKIP_CALLS = ("logger", "print", "dynamic_print", "warn", "warnings")
SWAP = {"sum": "mean", "mean": "sum", "min": "max", "max": "min", "argmax": "argmin", "nansum": "nanmean", "nanmean": "nansum",
        "repeat_interleave": "repeat", "exp": "expm1", "floor": "ceil", "ceil": "floor", "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like",
        "ones_like": "zeros_like", "median": "mean", "cumsum": "cumprod", "flatten": "ravel", "any": "all", "all": "any"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.BitAnd: "|", ast.BitOr: "&", ast.MatMult: "*"}
MULTI_SKIP = ("clone", "detach")


def offsets(src):
    out, n = [0], 0
    for l in src.encode().splitlines(keepends=True):
        n += len(l)
        out.append(n)
    return out


def seg(off, node):
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def sites(path):
    src = open(path).read()
    raw, off, tree = src.encode(), offsets(src), ast.parse(src)
    out = []

    def text(n):
        a, b = seg(off, n)
        return raw[a:b].decode()

    def put(n, new, kind, fn):
        a, b = seg(off, n)
        out.append((fn, kind, n.lineno, a, b, text(n), new))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP_FUNCS:
                return
            fn = (fn + "." if fn else "") + n.name
            for c in n.body:
                if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                walk(c, fn)
            if isinstance(n, ast.FunctionDef):
                for c in n.args.defaults + n.args.kw_defaults:
                    if c is not None:
                        walk(c, fn)
            return
        if isinstance(n, ast.Raise) or isinstance(n, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Call):
            f = n.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            name = root.id if isinstance(root, ast.Name) else ""
            if name in SKIP_CALLS or (isinstance(f, ast.Name) and f.id in SKIP_CALLS):
                return
        if isinstance(n, ast.AnnAssign) and n.value is not None:
            walk(n.value, fn)
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                put(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "cmp", fn)
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin", fn)
                if type(n.op) in (ast.Sub, ast.Div):
                    put(n, f"({text(n.right)} {'-' if type(n.op) is ast.Sub else '/'} {text(n.left)})", "swap", fn)
                put(n, f"({text(n.left)})", "drop", fn)
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    put(n, str(not v), "bool", fn)
                elif isinstance(v, int):
                    put(n, str(v + 1), "int", fn)
                    put(n, str(v - 1) if v else "-1", "int", fn)
                elif isinstance(v, float):
                    put(n, repr(v * 2 if v else 1.0), "float", fn)
            if isinstance(n, ast.UnaryOp):
                put(n, f"({text(n.operand)})", "unary", fn)
            if isinstance(n, ast.BoolOp):
                op = " or " if isinstance(n.op, ast.And) else " and "
                put(n, "(" + op.join(text(x) for x in n.values) + ")", "bool", fn)
                put(n, "(" + text(n.values[0]) + ")", "bool", fn)
            if isinstance(n, ast.IfExp):
                put(n, f"({text(n.body)})", "ifexp", fn)
                put(n, f"({text(n.orelse)})", "ifexp", fn)
            if isinstance(n, ast.If):
                put(n.test, f"(not ({text(n.test)}))", "if", fn)
                put(n.test, "False", "if", fn)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in SWAP:
                    a, b = seg(off, n.func)
                    put(n.func, text(n.func)[:-len(n.func.attr)] + SWAP[n.func.attr], "method", fn)
                if n.func.attr in ("clone", "detach", "exp", "log", "sigmoid", "abs", "sqrt", "T", "round", "float", "contiguous", "nan_to_num", "clamp", "flip", "sort"):
                    if not n.args or n.func.attr in ("clamp", "flip"):
                        put(n, text(n.func.value), "strip", fn)
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = seg(off, n.args[0])
                c, d = seg(off, n.args[1])
                out.append((fn, "args", n.lineno, a, d, raw[a:d].decode(), raw[c:d].decode() + ", " + raw[a:b].decode()))
            if isinstance(n, ast.Call) and n.keywords:
                k = n.keywords[-1]
                if k.arg:
                    a0 = [seg(off, x)[1] for x in n.args] + [seg(off, x.value)[1] for x in n.keywords[:-1]]
                    if a0:
                        a, b = max(a0), seg(off, k.value)[1]
                        out.append((fn, "kw", n.lineno, a, b, raw[a:b].decode(), ""))
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not text(n).startswith(SKIP_CALLS):
                put(n, "pass", "stmt", fn)
            if isinstance(n, ast.AugAssign):
                put(n, "pass", "stmt", fn)
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                for side in ("lower", "upper"):
                    s = getattr(n.slice, side)
                    if s is not None:
                        put(s, f"({text(s)}) + 1", "slice", fn)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                put(n, "pass", "stmt", fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, "")
    return [(path,) + s for s in out if s[5] != s[6]]


def covering():
    cov = {}
    for e in glob.glob(os.path.join(V, "evidence", "C*.json")):
        d = json.load(open(e))
        for f in d["coverage"].get("functions_encoded") or d["coverage"].get("functions") or []:
            cov.setdefault(f.replace(".<locals>", "").split(".<")[0], []).append((len(d["coverage"].get("functions_encoded") or d["coverage"].get("functions")), d["wall_s"], d["property"]))
    return cov


def run(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, ""


LOCK = threading.Lock()
FREE = []


def one(m, cov, out):
    path, fn, kind, line, a, b, old, new = m
    with LOCK:
        top = FREE.pop()
    try:
        wt, vf = os.path.join(top, "repo"), os.path.join(top, "verif")
        rel = os.path.relpath(path, "/repo")
        tgt = os.path.join(wt, rel)
        raw = open(path, "rb").read()
        mut = raw[:a] + new.encode() + raw[b:]
        rec = dict(file=rel, fn=fn, kind=kind, line=line, old=old, new=new)
        try:
            compile(mut, tgt, "exec")
        except (SyntaxError, ValueError):
            return
        open(tgt, "wb").write(mut)
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=wt, OMP_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR="/opt/vp/mplconfig")
        props = sorted(cov.get(f"{rel}:{fn}", []))
        rec["covered"] = [p for _, _, p in props]
        rec["caught"], rec["odd"], rec["tests"] = None, [], None
        for _, _, p in props:
            rc, log = run([PY, "check.py", p, "--jobs", "3"], vf, env, 1200)
            if rc == 1:
                rec["caught"] = p
                break
            if rc != 0:
                rec["odd"].append([p, rc, log[-600:]])
        if not rec["caught"]:
            rc, log = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "2", "--timeout=120", "tests", "--deselect", "tests/test_load_dataset.py::test_big_five"], wt, env, 400)
            rec["tests"] = "pass" if rc == 0 else "killed"
        open(tgt, "wb").write(raw)
        with LOCK:
            with open(out, "a") as f:
                f.write(json.dumps(rec) + "\n")
            if rec["tests"] == "pass" or rec["odd"]:
                print(("CAUGHT " + rec["caught"]) if rec["caught"] else "ODD" if rec["tests"] != "pass" else "SURVIVED" + str([o[0] for o in rec["odd"]]), f"{rel}:{line} {fn} [{kind}] {old!r} -> {new!r}", rec["covered"], flush=True)
    finally:
        with LOCK:
            FREE.append(top)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 3
    sub = sys.argv[5] if len(sys.argv) > 5 else ""
    files = [f for f in glob.glob("/repo/irtorch/**/*.py", recursive=True) if not any(s in os.path.basename(f) for s in SKIP_FILES) and sub in f]
    cov = covering()
    byfn = {}
    for f in files:
        for s in sites(f):
            byfn.setdefault((f, s[1]), []).append(s)
    rng = random.Random(seed)
    # functions first, then an edit in each, so that long functions do not dominate
    keys = sorted(byfn)
    picks = []
    while len(picks) < count:
        k = rng.choice(keys)
        picks.append(rng.choice(byfn[k]))
    print(len(keys), "functions,", sum(map(len, byfn.values())), "edits")
    for k in range(workers):
        top = tempfile.mkdtemp(prefix="mut_", dir="/tmp/mut")
        subprocess.check_call(["cp", "-a", "/repo", os.path.join(top, "repo")])
        subprocess.check_call(["cp", "-a", V, os.path.join(top, "verif")])
        FREE.append(top)
    tops = list(FREE)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(lambda m: one(m, cov, out), picks))
    for t in tops:
        shutil.rmtree(t)


main()
