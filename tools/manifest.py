"""Writes MANIFEST.json for the properties that the harness decides (argument: list of ids)."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ids = subprocess.run([os.path.join(root, "harness/target/debug/harness"), "list"], capture_output=True, text=True).stdout.split()
T = json.load(open(os.path.join(here, "techniques.json")))
checks, missing = [], []
for p in props:
    i = p["id"]
    if i not in ids:
        missing.append({"property": i, "reason": "The check is still being built."})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh {i} quick",
        "thorough_cmd": f"bash run.sh {i} thorough",
        "technique": T[i][0],
        "level": "exploration",
        "level_note": T[i][1] + " Generated cases only: no violation on what was explored is no proof.",
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: the checks drive the real server binary and the real Node addon, built from /repo's working tree."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
