import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.ir import Const
from vf.util import pmap
from vf.vflow import Agg, VFlow
from vf.x86 import SUBLEAF

CFGS = ("x86_64", "i686")
ROOT = "cpuinfo_x86_init_processor"
CACHE = "cpuinfo_x86_detect_cache"
DEPTH = 3                       # levels of leaf 0xB
FIELDS = ("apic_id", "thread_bits_offset", "thread_bits_length", "core_bits_offset", "core_bits_length")


def pure(k):
    return k[0] == "bit" and isinstance(k[1], tuple) and k[1][0] in ("cpuid", "mem")


def analyse(name):
    cfg = build.LINUX[name]
    have = build.load(build.raw(cfg), cfg).functions
    if ROOT not in have or CACHE not in have:
        return [("topology", None, "src/x86/topology.c", "function not found", name)]
    m = build.load(build.peeled(build.inlined(cfg, [ROOT], noinline=[CACHE]), DEPTH + 1), cfg)
    fn = m.functions[ROOT]

    def regs(vf, leaf, sub=None):
        if leaf == 0xB:
            x2apic = vf.opaque(("cpuid", 0xB, 0, 3), 32)        # the same in all levels
            if sub >= DEPTH:
                return [vf.const(0, 32)] * 3 + [x2apic]         # the list ends here
            return [vf.opaque(("cpuid", leaf, sub, r), 32) for r in range(3)] + [x2apic]
        return [vf.opaque(("cpuid", leaf, sub, r), 32) for r in range(4)]

    def hook(vf, i, nm, args, c):
        if nm == CACHE:
            return "void"
        if isinstance(i.callee, Const) and i.callee.kind == "asm" and "cpuid" in i.callee.val:
            ks = [vf.cval(a) if vf.is_const(a) else None for a in args if isinstance(a, tuple)]
            if ks[0] is not None and ks[0] not in SUBLEAF:
                return Agg(regs(vf, ks[0]))
            if ks[0] is not None and len(ks) > 1 and ks[1] is not None:
                return Agg(regs(vf, ks[0], ks[1]))
        return None
    vf = VFlow(m, call_hook=hook)
    vf.MAXSUP = 80
    b = vf.b
    l0, l1, e0, e1, e8 = (regs(vf, x) for x in (0, 1, 0x80000000, 0x80000001, 0x80000008))
    vf.run(fn)
    pro = ("argp", ROOT, 0)
    fs = m.di.bytefields("cpuinfo_x86_processor")

    def word(f, before=False):
        o, n = fs["topology." + f]
        w = ()
        for k in range(n):
            w += vf.initbyte(pro, o + k) if before else vf.byte(pro, o + k)
        return w

    def ge(w, c):
        return b.NOT(vf.ult(w, vf.const(c, 32)))

    def log2(w):
        """ceil(log2(w)), w > 0"""
        r = vf.const(0, 32)
        d = vf.add(w, vf.const(1, len(w)), True)
        for k, x in enumerate(d):
            r = vf.w_ite(x, vf.const(k + 1, 32), r)
        return r

    def sub(x, y):
        return vf.w_ite(vf.ult(y, x), vf.add(x, y, True), vf.const(0, 32))
    st = {f: word(f, True) for f in FIELDS}
    Z = vf.const(0, 32)
    has1 = ge(l0[0], 1)
    htt = b.AND(has1, l1[3][28])
    apic = vf.w_ite(htt, l1[1][24:] + (0,) * 24, Z)
    ext = b.AND(ge(e0[0], 0x80000000), ge(e0[0], 0x80000001))
    cmp = b.AND(ext, e1[2][1])
    n = l1[1][16:24]
    some = b.NOT(vf.eq(n, vf.const(0, 8)))
    nc = vf.add(e8[2][:8] + (0,), vf.const(1, 9))
    amd8 = b.AND(b.AND(htt, cmp), ge(e0[0], 0x80000008))
    amd1 = b.AND(b.AND(htt, cmp), b.AND(b.NOT(ge(e0[0], 0x80000008)), some))
    intel = b.AND(b.AND(htt, b.NOT(cmp)), some)
    thr = sub(log2(n), st["core_bits_length"])
    st["core_bits_length"] = vf.w_ite(amd8, log2(nc), vf.w_ite(amd1, log2(n), st["core_bits_length"]))
    for f in ("core_bits_offset", "thread_bits_length"):
        st[f] = vf.w_ite(intel, thr, st[f])
    x2 = b.AND(b.AND(has1, l1[2][21]), ge(l0[0], 0xB))
    for f in FIELDS[1:]:
        st[f] = vf.w_ite(x2, Z, st[f])
    act, low = x2, Z
    for k in range(DEPTH):
        r = regs(vf, 0xB, k)
        typ, shift = r[2][8:16], r[0][:5] + (0,) * 27
        apic = vf.w_ite(act, r[3], apic)
        smt = b.AND(act, vf.eq(typ, vf.const(1, 8)))
        core = b.AND(act, vf.eq(typ, vf.const(2, 8)))
        for g, kind in ((smt, "thread"), (core, "core")):
            st[kind + "_bits_offset"] = vf.w_ite(g, low, st[kind + "_bits_offset"])
            st[kind + "_bits_length"] = vf.w_ite(g, sub(shift, low) if k else shift, st[kind + "_bits_length"])
        act = b.AND(act, b.NOT(vf.eq(typ, vf.const(0, 8))))
        low = shift
    st["apic_id"] = apic
    # levels in order: threads, then cores, with growing shifts
    sane = 1
    s = [regs(vf, 0xB, k) for k in range(DEPTH)]
    t = [[vf.eq(x[2][8:16], vf.const(v, 8)) for v in range(3)] for x in s]
    first = b.OR(t[0][1], t[0][2])
    second = b.OR(b.NOT(t[0][1]), b.OR(t[1][0], b.AND(t[1][2], b.NOT(vf.ult(s[1][0][:5], s[0][0][:5])))))
    third = b.AND(b.OR(b.NOT(t[0][2]), t[1][0]), b.OR(b.NOT(t[1][2]), t[2][0]))
    sane = b.AND(first, b.AND(second, third))
    where = "src/x86/topology.c"
    for i in fn.insts:
        if i.file and i.file.endswith("topology.c"):
            where = i.loc()
            break
    out = []
    for f in FIELDS:
        # without leaf 1 there is nothing to decode
        g = b.AND(has1, b.OR(b.NOT(x2), sane))
        ok, ex = vf.same(word(f), st[f], g, pure)
        e = ""
        if ok is False:
            w = {}
            for k, v in ex.items():
                if k[0] == "bit" and k[1][0] == "cpuid":
                    w[k[1]] = w.get(k[1], 0) | v << k[2]
            e = ", e.g. " + ", ".join("leaf %#x%s %s=%#x" % (k[1], "" if k[2] is None else "/%d" % k[2], ("eax", "ebx", "ecx", "edx")[k[3]], v)
                                      for k, v in sorted(w.items(), key=str)[:10])
        out.append((f, ok, where, f"{f} is not what CPUID reports" + e, name))
    return out


def main():
    ck = check.Check(
        "T07", "other",
        technique="Boolean-function value flow over the processor detection with the levels of leaf 0xB peeled off their loop; the fields "
                  "of the APIC ID are compared with those that the manuals define",
        rule="thread field = bits below the SMT shift of leaf 0xB, core field = bits from there to the core shift; without x2APIC the "
             "fields follow leaf 1 and leaf 4 (Intel) or leaf 0x80000008 (AMD)",
        assumptions=["leaf 0xB lists threads before cores with non-decreasing shifts", f"at most {DEPTH} levels in leaf 0xB"])
    for r in pmap(analyse, CFGS):
        for o in r:
            ck.obligation(*o)
    ck.finish(10)


if __name__ == "__main__":
    check.main(main)
