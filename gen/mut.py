"""Regression of the checks against small edits: python3 gen/mut.py [check...]   (development only, uses a scratch copy)

gen/mutants.py lists (check, expected exit code, file, old text, new text).
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
exec(open(os.environ.get("MUTS", os.path.join(V, "gen", "mutants.py"))).read())


def one(a):
    n, (ck, want, subs) = a
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for x in ("src", "include", "deps", "tools"):
            shutil.copytree(os.environ.get("VF_BASE", "/repo") + "/" + x, d + "/" + x)
        for f, old, new in subs:
            s = open(d + "/" + f).read()
            if s.count(old) < 1:
                return n, ck, want, "PATCH", f
            open(d + "/" + f, "w").write(s.replace(old, new, 1))
        e = dict(os.environ, VF_REPO=d, VF_EVID=d + "/ev")
        p = subprocess.run(["python3", f"checks/{ck}.py"], cwd=V, env=e, capture_output=True, text=True)
        return n, ck, want, p.returncode, (p.stdout + p.stderr)[:600]
    finally:
        shutil.rmtree(d, True)


sel = sys.argv[1:]
jobs = [(i, m) for i, m in enumerate(M) if not sel or m[0] in sel or str(i) in sel]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for n, ck, want, rc, out in ex.map(one, jobs):
        if rc != want:
            bad += 1
            print(f"MISMATCH #{n} {ck}: expected {want}, got {rc}: {M[n][2][0][0]}\n   {out}")
print(len(jobs), "mutants,", bad, "mismatches")
