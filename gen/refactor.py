"""Every check on behaviour-preserving rewritings of the library: python3 gen/refactor.py [name...]   (development only, uses scratch copies)

gen/refactors.py defines R(name, edit, ...) with functions edit(dir) or tuples (file, old text, new text[, count]).
Alarms are mismatches; obligations that the rewriting makes undecided are listed.
"""
import re
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("VF_BASE", "/repo")
ALL = []


def R(name, *edits, only=None):
    ALL.append((name, edits, only))


exec(open(os.environ.get("RFS", os.path.join(V, "gen", "refactors.py"))).read())
CH = sorted(f[:-3] for f in os.listdir(V + "/checks") if f.endswith(".py") and len(f) == 6)
TREES = (("x86_64", "x86_64-linux-gnu"), ("aarch64", "aarch64-linux-gnu"), ("armv7", "arm"), )


def run(a):
    d, ck = a
    e = dict(os.environ, VF_REPO=d, VF_EVID=d + "/ev")
    p = subprocess.run(["python3", f"checks/{ck}.py"], cwd=V, env=e, capture_output=True, text=True)
    return ck, p.returncode, p.stdout + p.stderr


WHERE = {"P01": "src/linux/", "P02": "src/linux/", "P03": "src/arm/linux/cpuinfo|src/linux/|src/arm/midr", "P04": "src/x86/linux|src/linux", "C02": "src/x86/",
         "T07": "src/x86/", "S01": "src/x86", "S02": "src/x86", "S03": "src/arm", "S04": "src/arm", "S05": "src/riscv", "D01": "src/x86", "D02": "src/x86",
         "D03": "src/arm", "C01": "src/x86", "C03": "src/arm|src/cache", "T06": "src/x86", "L01": "log", "A05": "include"}
sel = [x for x in sys.argv[1:] if x[0] != "-"]
cks = [x[1:] for x in sys.argv[1:] if x[0] == "-"] or CH
for name, edits, only in ALL:
    if sel and not any(name.startswith(x) for x in sel):
        continue
    d = tempfile.mkdtemp(prefix="rf-")
    try:
        for x in ("src", "include", "deps", "tools"):
            shutil.copytree(BASE + "/" + x, d + "/" + x)
        ok = True
        for ed in edits:
            if callable(ed):
                ed(d)
                continue
            f, old, new = ed[:3]
            s = open(d + "/" + f).read()
            n = ed[3] if len(ed) > 3 else 1
            if s.count(old) < 1:
                print(f"{name}: text not found in {f}: {old[:60]!r}")
                ok = False
                break
            open(d + "/" + f, "w").write(s.replace(old, new) if n == 0 else s.replace(old, new, n))
        if not ok:
            continue
        ch = subprocess.run(["diff", "-rq", BASE + "/src", d + "/src"], capture_output=True, text=True).stdout
        mine = [c for c in cks if re.search(WHERE.get(c, ""), ch)]
        with ThreadPoolExecutor(5) as ex:
            rs = list(ex.map(run, [(d, c) for c in mine]))
        bad = [(c, rc, o) for c, rc, o in rs if rc]
        inc = [c for c, rc, o in rs if "INCOMPLETE" in o]
        und = {}
        for c in cks:
            try:
                u = json.load(open(f"{d}/ev/{c}.json"))["coverage"].get("undecided", 0)
                if u:
                    und[c] = u
            except Exception:
                pass
        print(f"{name}: alarms {[c for c, _, _ in bad]} incomplete {inc} undecided {und}", flush=True)
        for c, rc, o in bad:
            print("    ", c, rc, o[:500].replace("\n", "\n       "))
    finally:
        shutil.rmtree(d, True)
