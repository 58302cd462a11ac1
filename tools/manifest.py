#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and the reasons below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs as J
NA = {
    "C19": "decided by the type system (auto traits): there is no function to execute symbolically and no value over which a solver could quantify",
}
NOTE = "Exhaustive within the stated bounds, by symbolic execution of the LLVM IR rustc emits for /repo; z3 decides every branch and assertion. Trusts rustc's IR, the engine's reading of it (spot-checked by replaying path models natively) and z3 (spot-checked by cvc5 and a newer z3)."
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "cargo build --release --offline --manifest-path engine/Cargo.toml", "checks": [], "not_applicable": []}
for p in props:
    if p in J.PROPS:
        c = J.PROPS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "technique": "symbolic execution of the compiled crate's LLVM IR, assertions decided by z3" + c.get("technique", ""),
                            "level": c.get("level", "model_checking"), "level_note": NOTE + (" Bounds: " + c["bounds"] if c.get("bounds") else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
