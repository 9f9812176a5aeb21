"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import gen_properties as G

CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
na = list(G.NA)
for p in G.P:
    if p["id"] not in CLAIMED and p["id"] not in [x["property"] for x in na]:
        na.append({"property": p["id"], "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python wsim/setup.py",
    "checks": [
        {"property": k,
         "quick_cmd": f"/opt/venv/bin/python check.py {k} --tier quick",
         "thorough_cmd": f"/opt/venv/bin/python check.py {k} --tier thorough",
         "evidence_file": f"evidence/{k}.json",
         "technique": "deterministic simulation with fault injection: " + v["technique"],
         "level": "exploration",
         "level_note": v["note"]}
        for k, v in sorted(CLAIMED.items())],
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: every seam (system calls, clock, entropy, threads, interrupts, backend, imports) is taken from outside. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(na), "not applicable")
