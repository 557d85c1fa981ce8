"""Plant bugs: for each spec, build /verif/seeded/<id>/ from an edit of the sources, after confirming in a scratch copy that it
builds, passes the stable tests, and that its demonstration tells the two trees apart; then run the property's check on it.

usage: plant.py SPECS.py [ID...]     (SPECS.py defines BUGS: list of dicts)"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor

import threading
LOCK = threading.Lock()
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
DEMO_SH = '#!/bin/bash\ncd /repo\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env, timeout=600):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else e.stdout or "", "")


def tests(wt, env):
    xml = os.path.join(wt, "junit_out.xml")
    e = dict(env, OMP_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR="/opt/vp/mplconfig")
    r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "3", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={xml}", "tests"], wt, e, 900)
    out = os.path.join(wt, "res_out.json")
    run([PY, "/opt/vp/results.py", out, f"junit:{xml}"], wt, e)
    passed = set(json.load(open(out))["passed"])
    return [t for t in BASE if t not in passed]


def one(bug):
    bid = bug["id"]
    top = tempfile.mkdtemp(prefix="plant_")
    wt = os.path.join(top, "repo")
    log = [bid]
    try:
        subprocess.check_call(["cp", "-a", "/repo", wt])
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=wt)
        demo = os.path.join(top, "demo.py")
        open(demo, "w").write(bug["demo"])
        r0 = run([PY, demo], wt, env, 300)
        if r0.returncode != 0:
            return bid, "DEMO-FAILS-ON-ORIGINAL", r0.stdout[-1500:]
        for f, old, new in bug["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != bug.get("count", 1):
                return bid, "EDIT-NOT-UNIQUE", f"{f}: {s.count(old)} x {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff", "--", "irtorch"], cwd=wt, text=True)
        r1 = run([PY, demo], wt, env, 300)
        if r1.returncode == 0:
            return bid, "DEMO-PASSES-WITH-BUG", ""
        bad = tests(wt, env)
        if bad:
            return bid, "TESTS-FAIL", "\n".join(bad[:8])
        d = f"/verif/seeded/{bid}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(bug["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        res = []
        for p in bug.get("checks", [bug["property"]]):
            r = run(["/verif/check", p, "--jobs", "3"], "/verif", dict(env, VERIF_EVIDENCE=top), 900)
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            res.append(f"{p}: exit {r.returncode} " + ("CAUGHT" if r.returncode == 1 and lines else "MISSED") + " " + (lines[0][:160] if lines else r.stdout[-600:]))
        with LOCK:
            R = "/verif/tools/bugs/results.json"
            d = json.load(open(R)) if os.path.exists(R) else {}
            d[bid] = ", ".join((("caught by " if "CAUGHT" in x else "missed by ") + x.split(":")[0]) for x in res)
            json.dump(d, open(R, "w"), indent=1, sort_keys=True)
        return bid, "OK", " | ".join(res)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    sys.path.insert(0, os.path.dirname(sys.argv[1]))
    spec = importlib.util.spec_from_file_location("specs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for bid, st, info in ex.map(one, bugs):
            print(f"{bid}: {st} {info}", flush=True)


main()
