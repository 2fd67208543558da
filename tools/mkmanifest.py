#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vp/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vp import checks
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())
m = {"version": 1, "setup_cmd": "bash engine/build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources as they are (three build configurations of vm.c)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
            "technique": "symbolic execution of the clang LLVM IR of /repo's sources with Z3 (own engine), counterexamples replayed natively under ASan",
            "level": "model_checking",
            "level_note": "Every path of the encoded functions decided by SMT for all values within: " + c["bounds"] + ". Trusts clang -O0 lowering, the engine (path models are re-run natively) and Z3. " + (" ".join(c["assumptions"]))})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
