"""Writes MANIFEST.json from plan.py (developer tool)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for k, P in plan.PROPERTIES.items():
    tech = P.get("technique") or ("contract-based deductive verification (Verus) of the extracted functions" if P["units"] else "bounded stand-in (deductive units pending)")
    checks.append({
        "property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough", "technique": tech,
        "level": P["level"], "level_note": P["explanation"] + ". Assumes the token-stream contracts of contracts/prelude.vc. Bounded part: " + P["bounded"],
        **({"theorems": P["theorems"]} if P.get("theorems") else {}),
    })
json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)' && verus --version && cargo --version", "checks": checks, "not_applicable": []}, open(f"{V}/MANIFEST.json", "w"), indent=1)
