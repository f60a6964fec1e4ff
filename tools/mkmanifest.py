#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the checker implements (mc list)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = [l.split()[0] for l in subprocess.check_output([V + "/target/mc/release/mc", "list"], text=True).splitlines()]
checks, na = [], []
NOTE = ("Every behaviour of the real contract code (its wasm, executed in a model of the NEAR runtime) within the stated "
        "alphabet and bound is explored and compared with an independent reference; nothing is sampled. Trusts the runtime "
        "model (mc/src/vm.rs, world.rs) and the alphabet; says nothing beyond the bound, which the evidence states.")
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "technique": "explicit-state model checking of the compiled contracts (exhaustive breadth-first search over operation/receipt-delivery histories, reference-model oracle)",
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bin/build.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks run the contracts' unmodified wasm", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check ID TIER rebuilds the contracts it needs from /repo; bin/replay FILE re-executes a counterexample; KNOWN_FINDINGS lists recorded and repaired defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
