import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import arm_caches as spec
from vf import build, check, maxcache
from vf.bdd import Budget
from vf.util import pmap
from vf.vflow import NULL, Ptr, VFlow

CFGS = ("aarch64", "armv7")
DECODE = "cpuinfo_arm_decode_cache"
MAX = "cpuinfo_arm_compute_max_cache_size"
LEVELS = ("l1i", "l1d", "l2", "l3")
GEOM = ("size", "associativity", "sets", "partitions", "line_size")
CORES = 7                       # bits of the number of cores of a cluster


def pure(k):
    if k[0] == "bit":
        k = k[1]
    while isinstance(k, tuple) and k and isinstance(k[0], tuple):
        k = k[0]
    return isinstance(k, tuple) and k[0] in ("arg", "mem")


def geometry(a):
    name, uarchs = a
    cfg = build.LINUX[name]
    m = build.load(build.inlined(cfg, [DECODE]), cfg)
    if DECODE not in m.functions:
        return [("geometry", None, "src/arm/cache.c", "function not found", name)]
    fn = m.functions[DECODE]
    if "".join({"int": "i", "ptr": "p"}.get(x.ty.kind, "?") for x in fn.args) != "iiipiipppp":
        return [("geometry", None, "src/arm/cache.c", "parameters not recognised", name)]
    fs = m.di.bytefields("cpuinfo_cache")
    where = next((i.loc() for i in fn.insts if i.line), "src/arm/cache.c")
    out = []
    for uname, u in uarchs:
        vf = VFlow(m)
        vf.split = True
        b = vf.b
        cores = vf.sym(fn.args[1].ty, ("arg", DECODE, 1))[:CORES] + (0,) * (32 - CORES)
        some = b.NOT(vf.eq(cores, vf.const(0, 32)))
        args = []
        for x in fn.args:
            if x.index == 0:
                args.append(vf.const(u, 32))
            elif x.index == 1:
                args.append(cores)
            elif x.ty.kind == "ptr":
                base = ("argp", DECODE, x.index)
                args.append(Ptr([(1, base, 0)]))
                if x.index >= 6:
                    # the caller passes zeroed structures
                    vf.mem[base] = {k: (0,) * 8 for k in range(max(o + n for o, n in fs.values()))}
            else:
                args.append(vf.sym(x.ty, ("arg", DECODE, x.index)))
        vf.run(fn, args)
        w = {}
        for k, lv in enumerate(LEVELS):
            for f in GEOM:
                o, n = fs[f]
                w[lv, f] = sum((vf.byte(("argp", DECODE, 6 + k), o + j) for j in range(n)), ())
        Z, ONE = vf.const(0, 32), vf.const(1, 32)

        def add(key, bad, text):
            ok, ex = vf.decide(b.AND(some, bad), pure)
            out.append((f"{uname} {key}", ok, where, f"{uname}: {text}", name))
        for lv in LEVELS:
            have = b.NOT(vf.eq(w[lv, "size"], Z))
            if lv in ("l1i", "l1d"):
                add(lv + " present", b.NOT(have), f"no {lv} cache is reported")
            prod = vf.binop("mul", vf.binop("mul", w[lv, "sets"], w[lv, "associativity"]), w[lv, "line_size"])
            add(lv + " partitions", b.AND(have, b.NOT(vf.eq(w[lv, "partitions"], ONE))), f"the {lv} cache has not one partition")
            add(lv + " product", b.AND(have, b.NOT(vf.eq(prod, w[lv, "size"]))),
                f"sets * associativity * line size is not the size of the {lv} cache")
            ls = w[lv, "line_size"]
            one = 0
            for k in range(4, 9):
                one = b.OR(one, vf.eq(ls, vf.const(1 << k, 32)))
            add(lv + " line", b.AND(have, b.NOT(one)), f"the line size of the {lv} cache is not a power of two from 16 to 256")
        doc = spec.CORES.get(uname[len("cpuinfo_uarch_"):], {})
        if name == "aarch64" and uname[len("cpuinfo_uarch_"):] in spec.ONLY32:
            doc = {}
        for lv, (ways, line) in doc.items():
            have = b.NOT(vf.eq(w[lv, "size"], Z))
            ways = vf.const(ways, 32) if ways else vf.shift("lshr", w[lv, "size"], 12)
            add(lv + " ways", b.AND(have, b.NOT(vf.eq(w[lv, "associativity"], ways))), f"associativity of the {lv} cache is not the documented one")
            add(lv + " line size", b.AND(have, b.NOT(vf.eq(w[lv, "line_size"], vf.const(line, 32)))),
                f"line size of the {lv} cache is not the documented one")
        add("l3 without l2", b.AND(b.NOT(vf.eq(w["l3", "size"], Z)), vf.eq(w["l2", "size"], Z)), "level 3 cache without a level 2 cache")
    return out


def maximum(name):
    cfg = build.LINUX[name]
    m = build.load(build.inlined(cfg, [MAX]), cfg)
    if MAX not in m.functions:
        return [("maximum", None, "src/arm/cache.c", "function not found", name)]
    fn = m.functions[MAX]
    if len(fn.args) != 1 or fn.args[0].ty.kind != "ptr":
        return [("maximum", None, "src/arm/cache.c", "parameters not recognised", name)]
    vf = VFlow(m)
    vf.MAXSUP = 1000
    b = vf.b
    fs = m.di.bytefields("cpuinfo_processor")
    pt = fn.args[0].ty
    P = ("argp", MAX, 0)
    so, sn = m.di.bytefields("cpuinfo_cache")["size"]
    r, g = vf.run(fn)
    where = next((i.loc() for i in fn.insts if i.line), "src/arm/cache.c")
    out = []
    LV = ("l4", "l3", "l2", "l1d")
    ptr = {lv: vf.load(Ptr([(1, P, fs["cache." + lv][0])]), pt) for lv in LV}
    sizes = {lv: sum((vf.byte(base, off + so + j) for _, base, off in ptr[lv].alts for j in range(sn)), ()) for lv in LV}
    if any(len(s) != 8 * sn for s in sizes.values()):
        return [("maximum", None, where, "pointers to the caches not understood", name)]
    for lv in LV:
        size = sizes[lv]
        absent = vf.pcmp("eq", ptr[lv], Ptr([(1, NULL, 0)]))
        if len(b.support(absent)) != 1:
            out.append((f"maximum {lv}", None, where, "pointer to the cache not understood", name))
            return out
        v = b.var[absent]
        r1 = tuple(b.restrict(x, {v: 1 - (absent_value(b, absent))}) for x in r)
        r = tuple(b.restrict(x, {v: absent_value(b, absent)}) for x in r)
        # first with all the other sizes 0, which keeps the comparison small and is a witness when it fails
        others = {b.var[x]: 0 for o in LV if o != lv for x in sizes[o]}
        r0 = tuple(b.restrict(x, others) for x in r1)
        try:
            ok, ex = vf.decide(vf.ult(r0, size), pure)
        except Budget:
            ok = below(vf, r0, size)
        if ok and r0 != r1:
            ok = None
        out.append((f"maximum {lv}", ok, where, f"the upper bound on the cache size can be below the size of a {lv} cache that is the last level", name))
    return out


def published(name):
    return maxcache.published(name, MAX, "src/arm/linux/init.c")


def below(vf, x, y):
    """False if x < y for some values of the inputs"""
    rnd = random.Random(1)
    for _ in range(50):
        asg = {None: lambda k: rnd.randrange(2) if pure(k) else None}
        p, q = vf.evaluate(x, asg), vf.evaluate(y, asg)
        if p is not None and q is not None and p < q:
            return False
    return None


def absent_value(b, f):
    """value of its only variable that makes f true"""
    return 1 if b.hi[f] == 1 else 0


def main():
    ck = check.Check(
        "C03", "other",
        technique="Boolean-function value flow over the cache tables, one microarchitecture at a time, with symbolic chipset, MIDR, "
                  "architecture version and cluster size",
        rule="every reported cache has one partition, sets * associativity * line size equal to its size and a power-of-two line; level 1 "
             "caches exist, level 3 only with level 2, the upper bound on cache sizes is not below the last level, and Arm's own cores have the "
             "associativity and line size of their reference manuals",
        assumptions=["spec/arm_caches.py transcribes the Technical Reference Manuals", f"fewer than {1 << CORES} cores in a cluster"])
    jobs = []
    for name in CFGS:
        cfg = build.LINUX[name]
        en = build.load(build.raw(cfg), cfg).di.enums
        us = sorted(((k, v) for k, v in en.items() if k.startswith("cpuinfo_uarch_")), key=lambda x: x[1])
        us.append(("any other", 0x7FFFFFFF))
        jobs += [(name, us[k::4]) for k in range(4)]
    for r in pmap(geometry, jobs) + pmap(maximum, CFGS) + pmap(published, CFGS):
        for o in r:
            ck.obligation(*o)
    ck.finish(2000)


if __name__ == "__main__":
    check.main(main)
