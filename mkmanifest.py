#!/usr/bin/env python3
"""writes MANIFEST.json from specs.py and properties.jsonl"""
import json, os
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__)); props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
NOTE = "Bounded verification: every value of the symbolic inputs within the stated bounds is decided by Z3 over the LLVM IR of /repo's current source (no sampling); counterexamples are replayed natively against the real code before they are reported. Trusts rustc/LLVM's lowering, engine/, the stand-ins for hashes and ECDSA (ideal functions)"
checks = [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": "solver-based symbolic execution of the LLVM IR (Z3 bit-vectors), native replay", "level": "model_checking",
  "level_note": NOTE + (", X.509 path validation model" if SPECS[p["id"]].get("verify") else "") + ". Bounds: " + "; ".join(f"{e}: {o['bounds']}" + "".join(f" (p{i}={v}" + (f", thorough {o['thorough']['p'][i]}" if o.get("thorough") and i in o["thorough"]["p"] else "") + ")" for i, v in o.get("p", {}).items()) for e, o in SPECS[p["id"]]["runs"].items() if o.get("bounds"))} for p in props if p["id"] in SPECS]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "none (no hooks are needed: harnesses use the public API)", "enable": "nothing to enable", "source_commits": []}, "checks": checks, "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in SPECS], "notes": "See DESIGN.md. Repairs in /repo are listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
