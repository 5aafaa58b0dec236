import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import x86_descriptors as spec
from vf import build, check
from vf.ir import Const
from vf.util import pmap
from vf.vflow import Agg, Ptr, VFlow
from vf.x86 import UNROLL

CFGS = ("x86_64", "i686")
ROOT = "cpuinfo_x86_decode_cache_descriptor"
LEVELS = ("l1i", "l1d", "l2", "l3", "l4")
GEOM = ("size", "associativity", "sets", "partitions", "line_size")


def analyse(name):
    cfg = build.LINUX[name]
    m = build.load(build.inlined(cfg, [ROOT], post="function(sroa,simplifycfg)"), cfg)
    if ROOT not in m.functions:
        return [("descriptors", None, "src/x86/cache", "function not found", name)]
    fn = m.functions[ROOT]
    vf = VFlow(m)
    b = vf.b
    if len(fn.args) < 4 or fn.args[0].ty.kind != "int" or fn.args[1].ty.kind != "int" or fn.args[3].ty.kind != "ptr":
        return [("descriptors", None, "src/x86/cache", "parameters not recognised", name)]
    D = vf.sym(fn.args[0].ty, ("arg", ROOT, 0))
    vf.run(fn)
    V = vf.sym(fn.args[1].ty, ("arg", ROOT, 1))
    fs = m.di.bytefields("cpuinfo_x86_caches")
    mi = m.di.bytefields("cpuinfo_x86_model_info")
    cache, info = ("argp", ROOT, 3), ("argp", ROOT, 2)

    def word(base, off, n, before=False):
        w = ()
        for k in range(n):
            w += vf.initbyte(base, off + k) if before else vf.byte(base, off + k)
        return w
    got = {f: word(cache, *fs[f]) for f in fs}
    old = {f: word(cache, *fs[f], before=True) for f in fs}
    model = word(info, *mi["model"])
    family = word(info, *mi["family"])
    en = m.di.enums
    intel = vf.eq(V, vf.const(en["cpuinfo_vendor_intel"], 32))
    cyrix = 0
    if name == "i686":
        for v in ("cyrix", "nsc"):
            cyrix = b.OR(cyrix, vf.eq(V, vf.const(en["cpuinfo_vendor_" + v], 32)))
    xeon = b.AND(b.AND(intel, vf.eq(family, vf.const(15, 32))), vf.eq(model, vf.const(6, 32)))
    stores = {}
    out = []
    dv = [b.var[x] for x in D]

    def pure(k):
        return k[0] == "bit" and isinstance(k[1], tuple) and k[1][0] in ("arg", "mem")
    for d in range(256):
        asg = {v: d >> i & 1 for i, v in enumerate(dv[:8])}
        asg.update({v: 0 for v in dv[8:]})
        r = {f: tuple(b.restrict(x, asg) for x in w) for f, w in got.items()}
        # (condition, level) -> geometry
        want = {}
        if d in spec.CACHE:
            lv, kb, a, l = spec.CACHE[d]
            want[lv] = [(b.NOT(cyrix) if d == 0x80 else 1, kb, a, l)]
            if d == 0x80 and cyrix:
                for x in ("l1i", "l1d"):
                    want[x] = [(cyrix,) + spec.CYRIX_80]
        elif d == 0x49:
            want["l3"] = [(xeon,) + spec.SHARED_49]
            want["l2"] = [(b.NOT(xeon),) + spec.SHARED_49]
        where = place(m, fn, d)
        for lv in LEVELS:
            bad = 0
            for f in GEOM:
                e = old[f"{lv}.{f}"]
                for g, kb, a, l in want.get(lv, ()):
                    v = {"size": kb * 1024, "associativity": a, "line_size": l, "partitions": 1, "sets": kb * 1024 // (a * l)}[f]
                    e = vf.w_ite(g, vf.const(v, 32), e)
                for x, y in zip(r[f"{lv}.{f}"], e):
                    bad = b.OR(bad, b.XOR(x, y))
            ok, ex = vf.decide(bad, pure)
            if lv in want:
                g, kb, a, l = want[lv][0]
                text = f"descriptor 0x{d:02X} is documented as {lv} cache of {kb} KB, {a} ways, {l}-byte lines and is decoded differently"
            else:
                text = f"descriptor 0x{d:02X} does not describe the {lv} cache but changes it"
            out.append((f"descriptor 0x{d:02X} {lv}", ok, where, text, name))
        pf = r["prefetch_size"]
        e = vf.const(spec.PREFETCH[d], 32) if d in spec.PREFETCH else old["prefetch_size"]
        bad = 0
        if d in spec.PREFETCH:
            # stored through either pointer of the caller
            continue
        for x, y in zip(pf, e):
            bad = b.OR(bad, b.XOR(x, y))
        ok, ex = vf.decide(bad, pure)
        out.append((f"descriptor 0x{d:02X} prefetch", ok, where, "a descriptor of something else changes the prefetch size", name))
    return out


DETECT = "cpuinfo_x86_detect_cache"


def registers(name):
    """every descriptor byte of the registers reaches the decoder"""
    cfg = build.LINUX[name]
    where = "src/x86/cache/init.c"
    have = build.load(build.raw(cfg), cfg).functions
    if ROOT not in have or DETECT not in have:
        return [("bytes", None, where, "function not found", name)]
    # the first pass over the registers apart from the further ones
    path = build.peeled(build.inlined(cfg, [DETECT], noinline=[ROOT], post=UNROLL), 1)
    m = build.load(path, cfg)
    fn = m.functions[DETECT]
    if len(fn.args) < 6 or fn.args[5].ty.kind != "ptr" or fn.args[0].ty.kind != "int":
        return [("bytes", None, where, "parameters not recognised", name)]
    calls = []

    def hook(vf, i, nm, args, c):
        if nm == ROOT:
            calls.append((i, c, args))
            return "void"
        if isinstance(i.callee, Const) and i.callee.kind == "asm" and "cpuid" in i.callee.val:
            ks = [a for a in args if isinstance(a, tuple)]
            if vf.is_const(ks[0]) and vf.cval(ks[0]) == 2:
                return Agg(vf.opaque(("cpuid", 2, r), 32) for r in range(4))
            return Agg(vf.const(0, 32) for r in range(4))
        return None
    vf = VFlow(m, call_hook=hook)
    b = vf.b
    regs = [vf.opaque(("cpuid", 2, r), 32) for r in range(4)]
    args = [Ptr([(1, ("argp", DETECT, a.index), 0)]) if a.ty.kind == "ptr" else vf.sym(a.ty, ("arg", DETECT, a.index)) for a in fn.args]
    vf.run(fn, args)
    by = [r[k:k + 8] for r in regs for k in range(0, 32, 8)]
    some = b.NOT(vf.eq(by[0], vf.const(0, 8)))
    ok2 = b.AND(some, b.NOT(vf.ult(args[0], vf.const(2, 32))))
    pure = lambda k: k[0] == "bit" and isinstance(k[1], tuple) and k[1][0] in ("cpuid", "arg")
    out = []
    direct = [(i, c, a) for i, c, a in calls if all(x < 2 or pure(b.names[v]) for x in a[0] for v in vf.sup((x,)))]
    if not direct:
        return [("bytes", None, where, "no call of the decoder with bytes of the registers", name)]
    where = direct[0][0].loc()
    once = vf.eq(by[0], vf.const(1, 8))
    other = 0
    for i, c, a in calls:
        if (i, c, a) not in direct:
            other = b.OR(other, b.AND(c, once))
    for k in range(16):
        need = b.AND(ok2, b.NOT(vf.eq(by[k], vf.const(0, 8))))
        for i, c, a in direct:
            # decoded with this value
            if a[0][:8] == by[k]:
                need = b.AND(need, b.NOT(c))
        if k == 0:
            bad = 0
            for i, c, a in direct:
                if a[0][:8] == by[0]:
                    bad = b.OR(bad, b.AND(c, some))
            out.append(("byte 0", vf.decide(bad, pure)[0], where, "the low byte of EAX is a count, but it is decoded as a descriptor", name))
            continue
        ok, ex = vf.decide(need, pure)
        if ok is False and other:
            ok = None
        out.append((f"byte {k}", ok, where, f"byte {k % 4} of {('eax', 'ebx', 'ecx', 'edx')[k // 4]} of CPUID leaf 2 is not decoded", name))
    for i, c, a in direct:
        good = a[1] == args[3] and a[2] == args[4] and a[3] == args[5]
        out.append((f"arguments {i.line}", True if good else None, i.loc(), "arguments of the decoder", name))
    return out


def place(m, fn, d):
    """source line of the case of a descriptor"""
    for i in fn.insts:
        if i.op == "switch":
            for v, s in getattr(i, "cases", ()):
                if getattr(v, "val", v) in (d, d - 256):
                    for x in s.insts:
                        if x.line:
                            return x.loc()
    return next((i.loc() for i in fn.insts if i.line), "src/x86/cache/descriptor.c")


def main():
    ck = check.Check(
        "C01", "other",
        technique="Boolean-function value flow over the descriptor decoder: the stored geometry as a function of descriptor, vendor, "
                  "family and model is compared with the documented table for each of the 256 descriptors",
        rule="each descriptor sets exactly the cache that the Intel manuals document, to the documented size, associativity and line "
             "size, with sets that make up the size",
        assumptions=["spec/x86_descriptors.py transcribes the Intel SDM (table 3-12) and Application Note 485"])
    for r in pmap(analyse, CFGS) + pmap(registers, CFGS):
        for o in r:
            ck.obligation(*o)
    ck.finish(2000)


if __name__ == "__main__":
    check.main(main)
