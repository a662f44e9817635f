#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
MODEL = "stateful model-based property testing (generated histories against a reference model, shrunk replays)"
TECH = json.load(open(f"{here}/tools/techniques.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "verification hook" in l]
checks, na = [], []
for p in props:
    t = TECH.get(p["id"])
    if not t:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh quick {p['id']}",
        "thorough_cmd": f"./run.sh thorough {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t["technique"] or MODEL,
        "level": "exploration",
        "level_note": t["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {
        "guard": "cfg(hydra_verif)",
        "enable": "RUSTFLAGS=\"--cfg hydra_verif\" (run.sh sets it)",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
