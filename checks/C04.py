import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check, maxcache
from vf.util import pmap
from vf.vflow import NULL, Ptr, VFlow

MAX = "cpuinfo_compute_max_cache_size"
SRC = "src/cache.c"
LEVELS = ("l4", "l3", "l2", "l1d")


def pure(k):
    if k[0] == "bit":
        k = k[1]
    if k[0] == "isnull":
        return True
    while isinstance(k, tuple) and k and isinstance(k[0], tuple):
        k = k[0]
    return isinstance(k, tuple) and k[0] in ("arg", "mem")


def function(name):
    cfg = build.LINUX[name]
    m = build.load(build.inlined(cfg, [MAX]), cfg)
    if MAX not in m.functions:
        return [("size", None, SRC, "function not found", name)]
    fn = m.functions[MAX]
    if len(fn.args) != 1 or fn.args[0].ty.kind != "ptr":
        return [("size", None, SRC, "parameters not recognised", name)]
    vf = VFlow(m)
    vf.MAXSUP = 1000
    b = vf.b
    where = next((i.loc() for i in fn.insts if i.line), SRC)
    fs = m.di.bytefields("cpuinfo_processor")
    so, sn = m.di.bytefields("cpuinfo_cache")["size"]
    r, g = vf.run(fn)
    out = []
    ptr = {lv: vf.load(Ptr([(1, ("argp", MAX, 0), fs["cache." + lv][0])]), fn.args[0].ty) for lv in LEVELS}
    want = vf.const(0, len(r))
    here = {}
    for lv in reversed(LEVELS):
        al = [x for x in ptr[lv].alts if x[1] != NULL]
        if len(al) != 1:
            return [("size", None, where, "pointers to the caches not understood", name)]
        size = sum((vf.byte(al[0][1], al[0][2] + so + j) for j in range(sn)), ())
        here[lv] = b.NOT(vf.pcmp("eq", ptr[lv], Ptr([(1, NULL, 0)])))
        want = vf.w_ite(here[lv], size, want)
    out.append(("returns", vf.decide(b.NOT(g), pure)[0], where, "the size is not computed for every processor", name))
    above = 1
    for lv in LEVELS + (None,):
        c = b.AND(above, here[lv]) if lv else above
        out.append((f"last level {lv}", vf.same(r, want, c, pure)[0], where,
                    f"with {lv} as the last level the result is not its size" if lv else "without caches the result is not zero", name))
        if lv:
            above = b.AND(above, b.NOT(here[lv]))
    return out


def published(name):
    return maxcache.published(name, MAX, SRC)


def main():
    ck = check.Check(
        "C04", "other",
        technique="Boolean-function value flow through the computation for all presence patterns of caches, and provenance of the value and "
                  "of the processor it is computed from",
        rule="the maximum cache size is the size of the level 4, else 3, else 2, else 1 data cache of the first listed processor, else zero",
        assumptions=[])
    cf = ("x86_64", "i686")
    for r in pmap(function, cf) + pmap(published, cf):
        for o in r:
            ck.obligation(*o)
    ck.finish(10)


if __name__ == "__main__":
    check.main(main)
