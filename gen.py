#!/usr/bin/env python3
"""gen.py: writes properties.jsonl and MANIFEST.json from the property texts below and props.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import props
P = []
L = "src/library/include/"
def prop(id, title, statement, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=[L + f if not f.startswith("src/") else f for f in files], mechanism=[dict(name=n, where=L + w if not w.startswith("src/") else w) for n, w in mech], **kw)))
exec(open(os.path.join(V, "texts.py")).read())
NA = globals().get("NOT_APPLICABLE", [])
claimed = [p["id"] for p in P if p["id"] in props.PROPS]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    if p["id"] not in props.PROPS: continue
    q = props.PROPS[p["id"]]; hs = [h for h in q["harnesses"] if "quick" in h.get("tiers", ("quick", "thorough"))]
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique="symbolic execution of the compiled real code (LLVM bitcode) with z3 deciding every symbolic branch and assertion",
        level="model_checking",
        level_note="Holds for every value within the bounds (quick: " + "; ".join(dict.fromkeys(h["bounds"] for h in hs))[:900] + "). Outside: " + q["outside"] + ". Trusts clang's front end and -O1 pipeline, the executor in engine/ and z3; counterexamples and sampled paths are replayed on the native build."))
na = [dict(property=k, reason=r) for k, r in NA]
for p in P:
    assert p["id"] in props.PROPS or any(n["property"] == p["id"] for n in na), p["id"]
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na, notes="See DESIGN.md. properties.jsonl and this file are written by gen.py."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json")); [jsonschema.validate(p, sch) for p in P]
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(P), "properties", len(checks), "checks")
except ImportError: print("no jsonschema")
