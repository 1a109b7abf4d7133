#!/usr/bin/env python3
"""MANIFEST.json from checks.json (claimed) and properties.jsonl (the rest is listed as not claimed, with its reason)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(f"{V}/checks.json"))
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = json.load(open(f"{V}/tools/not_applicable.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif_hooks")]
checks, na = [], []
for p in P:
    i = p["id"]
    if i in C:
        c = C[i]
        checks.append({
            "property": i, "quick_cmd": f"python3 bin/check.py {i} quick", "thorough_cmd": f"python3 bin/check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: contracts spliced into functions extracted from /repo on every run, discharged by Verus/Z3 (units: "
                         + ", ".join(c["units"]) + "); bounded replay on the real crates searches failing inputs",
            "level": c.get("level", "proof"), "level_note": c["level_note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet: no contract unit for this property has been committed so far")})
for k, r in NA.items():
    if k not in {p["id"] for p in P}:
        na.append({"property": k, "reason": r})
M = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "cfg verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\"", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Every check re-extracts the functions it depends on from /repo and re-verifies them; see DESIGN.md."}
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
