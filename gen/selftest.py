"""All checks on the unchanged tree: exit 0, complete, nothing undecided (development only)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    i = c["id"] if "id" in c else c["property"]
    if sys.argv[1:] and i not in sys.argv[1:]:
        continue
    t = time.time()
    p = subprocess.run(["python3", f"checks/{i}.py"], cwd=V, capture_output=True, text=True)
    e = json.load(open(f"{V}/evidence/{i}.json"))["coverage"]
    ok = p.returncode == 0 and "incomplete" not in e and not e["undecided"]
    bad += not ok
    print(i, "ok" if ok else "PROBLEM", p.returncode, e["obligations"], "undecided", e["undecided"], f"{time.time() - t:.1f} s")
print("problems:", bad)
