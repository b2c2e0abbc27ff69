#!/usr/bin/env python3
"""Writes DESIGN.md from design_text.py, props.py, the rules stated by the checks, known_findings.json and seeded/*/meta.json."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P
import design_text as T


def rule(pid):
    for c in ast.walk(ast.parse(open(os.path.join(VERIF, "checks", pid.lower() + ".py")).read())):
        if isinstance(c, ast.ClassDef):
            for s in c.body:
                if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == "rule":
                    return ast.literal_eval(s.value)


out = [T.HEAD]
for p in sorted(P, key=lambda p: p["id"]):
    ora, bounds, beyond = T.PROPS.get(p["id"], ("", "", ""))
    out.append("### %s - %s\n\n%s\n\n- **Generated:** %s\n- **Oracle:** %s\n- **Bounds and left out:** %s\n- **Beyond the tests:** %s %s\n- **Anchors:** %s\n" % (
        p["id"], p["title"], p["statement"], rule(p["id"]), ora, bounds, p["why"], beyond, "; ".join("%s (`%s`)" % m for m in p["mech"])))
out.append(T.MIDDLE)
kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
kf = kf if isinstance(kf, list) else kf["findings"]
out.append("### Recorded, not repaired\n")
for e in kf:
    if e["status"] == "known":
        out.append("- %s: %s" % (e["property"], e["what"]))
out.append("\n### Repaired (commits in /repo, message starting `fix:`)\n")
for e in sorted(kf, key=lambda e: e["property"]):
    if e["status"] == "fixed":
        out.append("- %s `%s`: %s" % (e["property"], e["commit"][:7], e["what"]))
out.append("\n" + T.SEEDS)
out.append("| planted | property | needs | what it breaks | caught by |\n|---|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], T.CAUGHT.get(i, m["property"])))
out.append("\n" + T.TAIL)
open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))
