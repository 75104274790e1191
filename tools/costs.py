"""costs.py TIER [ID..]: run the checks one after another and note what they covered in tools/costs.json (used by mkdesign.py)."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tier, ids = sys.argv[1], sys.argv[2:] or sorted(f[:3] for f in os.listdir(HERE + "/checks") if f.startswith("R"))
path = HERE + "/tools/costs.json"
for pid in ids:
    r = subprocess.run(["bash", "run.sh", pid, "--tier", tier], cwd=HERE, capture_output=True, text=True)
    e = json.load(open(HERE + "/evidence/%s.json" % pid))
    c = e["coverage"]
    d = json.load(open(path)) if os.path.exists(path) else {}
    d.setdefault(tier, {})[pid] = {k: c[k] for k in ("cases", "evaluations", "states", "transitions", "traces_validated_against_impl", "exhaustive") if k in c}
    d[tier][pid]["wall_s"] = e["wall_s"]
    json.dump(d, open(path, "w"), indent=1, sort_keys=True)
    print(pid, tier, "exit", r.returncode, d[tier][pid], flush=True)
    if r.returncode:
        print(r.stdout[-2000:], r.stderr[-2000:])
