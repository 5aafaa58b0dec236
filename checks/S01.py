import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.x86 import X86, pure
from spec import x86_isa as spec


def analyse(ck, cfg):
    x = X86(cfg, skip=["cpuinfo_x86_detect_cache", "cpuinfo_x86_detect_topology"]).run()
    vf, b, m = x.vf, x.vf.b, x.m
    enums = m.di.enums
    flds = m.di.bytefields("cpuinfo_x86_isa")
    where = "src/x86/isa.c"
    ISA = ("g", "cpuinfo_isa")
    ck.count("IR instructions of the CPUID decoder", len(x.fn.insts))
    ck.count("CPUID reads", len(x.cpuids))

    maxb = x.reg(0, "eax")
    A = x.ge(maxb, 1)
    # architectural consistency of the inputs: XCR0 only has bits that leaf 0xD enumerates, and OSXSAVE
    # implies leaf 0xD
    osx = b.AND(x.bit(1, "ecx", 27), x.bit(1, "ecx", 26))
    xcr = vf.opaque((("xgetbv", 0), 0), 32)
    d0 = x.reg(0xD, "eax", 0)
    H = b.OR(b.NOT(osx), x.avail(0xD))
    for k in (1, 2, 3, 4, 5, 6, 7, 17, 18):
        H = b.AND(H, b.OR(b.NOT(xcr[k]), d0[k]))
    A = b.AND(A, H)
    # XSAVE enumerated whenever OSXSAVE is
    A = b.AND(A, b.OR(b.NOT(x.bit(1, "ecx", 27)), x.bit(1, "ecx", 26)))

    def state(name):
        r = osx
        mask = spec.STATE[name]
        if name == "amx":
            mask |= spec.STATE["avx512"] if AMX_NEEDS_AVX512 else 0
        for k in range(32):
            if (mask >> k) & 1:
                r = b.AND(r, xcr[k])
        return r

    AMX_NEEDS_AVX512 = False

    def cbit(leaf, sub, reg, bit):
        return b.AND(x.bit(leaf, reg, bit, sub), x.avail(leaf))

    def expr(alts):
        r = 0
        for a in alts:
            r = b.OR(r, cbit(*a))
        return r

    vendor = x.field("cpuinfo_x86_processor", "vendor")
    uarch = x.field("cpuinfo_x86_processor", "uarch")

    def vend(n):
        return vf.eq(vendor, vf.const(enums["cpuinfo_vendor_" + n], len(vendor)))

    def got(name):
        o, s = flds[name]
        by = vf.byte(ISA, o)
        r = 0
        for k in by:
            r = b.OR(r, k)
        return r

    def cmp(name, want, dontcare=0):
        A2 = b.AND(A, b.NOT(dontcare))
        g = got(name)
        d = b.AND(A2, b.XOR(g, want))
        ok, w = vf.decide(d, pure)
        if ok is not False:
            ck.obligation(name, ok, where, "" if ok else "depends on values that the analysis does not know", cfg.name)
            return
        kind = "reported although not available" if b.AND(d, g) else "not reported although available"
        from vf.bdd import name as nm
        ck.obligation(name, False, where,
                      f"flag '{name}' is not the documented function of the CPUID/XCR0 bits: {kind}, e.g. when "
                      + ", ".join(f"{nm(k)}={v}" for k, v in list(w.items())[:14]) +
                      f"; computed: {b.show(g, 3)[:300]}", cfg.name)

    is64 = cfg.name == "x86_64"
    for name in sorted(flds):
        if name in spec.FIELDS:
            alts, st = spec.FIELDS[name]
            want = expr(alts)
            if st:
                want = b.AND(want, state(st))
            dc = 0
            if any(a[0] == 7 and a[1] == 1 for a in alts):
                dc = vf.eq(x.reg(7, "eax", 0), vf.const(0, 32))    # subleaf 1 does not exist
            cmp(name, want, dc)
        elif name in spec.PADLOCK:
            p, q = spec.PADLOCK[name]
            want = b.AND(vend("via"), b.AND(cbit(0xC0000001, None, "edx", p), cbit(0xC0000001, None, "edx", q)))
            cmp(name, want)
        elif name == "fxsave":
            legacy = 0 if is64 else b.OR(vend("cyrix"), vend("nsc"))
            cmp(name, b.AND(b.NOT(legacy), expr([(1, None, "edx", 24), (0x80000001, None, "edx", 24)])))
        elif name == "emmx":
            cmp(name, b.AND(b.OR(vend("cyrix"), vend("nsc")), expr([(0x80000001, None, "edx", 24)])))
        elif name == "three_d_now_geode":
            geode = vf.eq(uarch, vf.const(enums["cpuinfo_uarch_geode"], len(uarch)))
            cmp(name, b.AND(expr([(0x80000001, None, "edx", 30)]), geode))
        elif name in ("prefetch", "prefetchw"):
            amd = b.OR(vend("amd"), vend("hygon"))
            e_amd = expr([(0x80000001, None, "ecx", 8), (0x80000001, None, "edx", 29), (0x80000001, None, "edx", 30),
                          (0x80000001, None, "edx", 31)])
            tdn = expr([(0x80000001, None, "edx", 30), (0x80000001, None, "edx", 31)])
            if name == "prefetch":
                other = b.AND(b.NOT(vend("intel")), tdn)
            else:
                other = b.OR(tdn, expr([(0x80000001, None, "ecx", 8)]))
            cmp(name, b.ite(amd, e_amd, other))
        elif name == "avx10_2":
            ver = x.reg(0x24, "ebx", 0)[:8]
            ge2 = b.NOT(vf.ult(ver, vf.const(2, 8)))
            want = b.AND(b.AND(expr([(7, 1, "edx", 19)]), state("avx512")), b.AND(ge2, x.avail(0x24)))
            dc = vf.eq(x.reg(7, "eax", 0), vf.const(0, 32))
            cmp(name, want, dc)
        elif name == "daz":
            g = got(name)
            sse3, sse = expr([(1, None, "ecx", 0)]), expr([(1, None, "edx", 25)])
            ok = b.implies(b.AND(A, sse3), g) and b.implies(b.AND(A, b.AND(g, b.NOT(sse3))), b.AND(sse, got("fxsave")))
            ck.obligation(name, ok, where, "DAZ must be reported with SSE3 and never without SSE and FXSAVE", cfg.name)
        else:
            ck.obligation(name, None, where, "extension without a specification entry", cfg.name)
    for name in list(spec.FIELDS)[:6]:
        if name in flds:
            ck.sample({"config": cfg.name, "flag": name, "function": b.show(got(name), 2)[:300]})


def main():
    ck = check.Check("S01", technique="Boolean-function data-flow analysis of the CPUID decoder in LLVM IR",
                     rule="every ISA flag, as a Boolean function of all CPUID/XCR0 bits, equals the documented one",
                     assumptions=["XCR0 has no bit that CPUID leaf 0xD does not enumerate; OSXSAVE implies XSAVE and leaf 0xD",
                                  "leaf 7 subleaf 1 bits are compared only when leaf 7 reports a subleaf 1"])
    for n in ("x86_64", "i686"):
        analyse(ck, build.LINUX[n])
    ck.finish(min_obligations=150)


check.main(main)
