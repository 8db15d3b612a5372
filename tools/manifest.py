import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties_data import PROPS
V = os.path.dirname(HERE)
NOTE = ("Deductive proof, for all inputs, of contracts on the real functions: every run compiles /repo's current sources to LLVM IR, "
        "executes each function symbolically against its contract (callers use callee contracts) and discharges every obligation by "
        "exact rational-function normalisation, z3 or cvc5. Trusted: clang front end, the VC generator and normaliser in engine/, the solvers, libm "
        "definitions. Machine floating point is treated as exact real arithmetic except in contracts marked IEEE. ")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
man = {"version": 1, "setup_cmd": "python3-vt engine/driver.py --setup",
       "checks": [{"property": p["id"], "quick_cmd": "python3-vt engine/driver.py " + p["id"],
                   "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/driver.py " + p["id"],
                   "technique": p.get("technique") or "contract-based deductive verification (VC generation from LLVM IR of the real code; algebraic normalisation + SMT)",
                   "level": "proof", "level_note": NOTE + p["note"]} for p in PROPS if p["claimed"]],
       "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]]}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    S = lambda n: json.load(open("/root/.vp/" + n))
    jsonschema.validate(man, S("MANIFEST.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), S("PROPERTIES.schema.json"))
except FileNotFoundError:
    pass
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
