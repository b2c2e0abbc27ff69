#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (checks without a checks/<id>.py are left out of the manifest)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
out, man, na = [], [], []
for p in props.P:
    d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["forall"]),
             why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
    if p.get("observe"):
        d["anchors"]["observe_at"] = p["observe"]
    assert len(d["title"]) <= 80, d["title"]
    out.append(json.dumps(d))
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        assert os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")), p["id"]
        man.append(dict(property=p["id"], quick_cmd="./run.py %s --tier quick" % p["id"], thorough_cmd="./run.py %s --tier thorough" % p["id"],
                        technique="property-based testing: " + p["tech"], level=p.get("level", "exploration"), level_note=p["note"]))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
m = dict(version=1, setup_cmd="./run.py build all", checks=man, not_applicable=na,
         notes="Every check rebuilds the libraries from /repo's working tree into /verif/build (ignored by git) and drives the public C APIs; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
