#!/bin/bash
# gen/apply.sh N DIR: make a scratch copy of the sources with mutant N applied
python3 - "$1" "$2" <<'PY'
import sys, shutil, os
M = []
exec(open("/verif/gen/mutants.py").read())
d = sys.argv[2]
shutil.rmtree(d, True)
for x in ("src", "include", "deps", "tools"):
    shutil.copytree("/repo/" + x, d + "/" + x)
for f, o, n in M[int(sys.argv[1])][2]:
    s = open(d + "/" + f).read()
    assert o in s, f
    open(d + "/" + f, "w").write(s.replace(o, n, 1))
PY
