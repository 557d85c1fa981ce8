#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe, state=(), na=None):
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=m, where=files[0]) for m in mechanism], observe_at=observe, hook_needed=None), _na=na)
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, statement


HOW = {}


def how(pid, text):
    HOW[pid] = " ".join(text.split())


exec(open(os.path.join(V, "tools", "props.py")).read())

NOTE = ("Bounded symbolic execution: the current source in /repo runs on the real PyTorch front end and autograd over a symbolic "
        "ATen interpreter, and the SMT solver decides the negation of every obligation for all values of the symbolic inputs at the stated small "
        "sizes and ranges; real arithmetic stands for floating point. Trusted: the operator semantics (cross-checked "
        "against the real kernels on every run), the algebraic normal form, the solver. Counterexamples are replayed on the unmodified library before being reported.")
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid, p in sorted(P.items()):
        why = p.pop("_na")
        f.write(json.dumps(p) + "\n")
        if why is None and not os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
            why = "the check is not built yet"
        if why:
            na.append(dict(property=pid, reason=why))
        else:
            checks.append(dict(property=pid, quick_cmd=f"./check {pid}", thorough_cmd=f"./check {pid} --tier thorough",
                               technique="symbolic execution of the real code + SMT (z3), replayed counterexamples", level="other", level_note=NOTE))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Each check imports irtorch from /repo's working tree at run time; nothing is cached between runs.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

KF = json.load(open(os.path.join(V, "known_findings.json")))
RES = os.path.join(V, "tools", "bugs", "results.json")
RES = json.load(open(RES)) if os.path.exists(RES) else {}
claimed = {c["property"] for c in checks}
tab = "\n\n".join(f"**{pid} {p['title']}.** {HOW.get(pid, '')}" for pid, p in sorted(P.items()) if pid in claimed)
fnd = "\n".join(["- " + f for f in KF["fixed"]] + [f"- known finding, {f['property']} ({f['harness']}): {f['what']}" for f in KF["findings"]])
nas = "\n".join(f"- {n['property']} {P[n['property']]['title']}: {n['reason']}" for n in na) or "- none"
rows = []
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    meta = json.load(open(os.path.join(sd, b, "meta.json")))
    rows.append(f"| {b} | {meta['property']} | {meta['what_it_breaks']} | {RES.get(b, '?')} |")
d = open(os.path.join(V, "tools", "design.in")).read()
for k, v in dict(__TABLE__=tab, __FINDINGS__=fnd, __NA__=nas, __SEEDS__="| bug | property | what it breaks | checks |\n|---|---|---|---|\n" + "\n".join(rows)).items():
    d = d.replace(k, v)
open(os.path.join(V, "DESIGN.md"), "w").write(d)
print(len(checks), "claimed", len(na), "not")
