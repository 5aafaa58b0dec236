import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.D01 import detect, ident, verdict
from spec import x86_ident as spec
from vf import build, check
from vf.util import pmap


def analyse(name):
    cfg = build.LINUX[name]
    wide = name == "x86_64"
    x = detect(cfg)
    vf, b = x.vf, x.vf.b
    got = x.field("cpuinfo_x86_processor", "uarch")
    sig = x.reg(1, "eax")
    out = []
    where = next((i.loc() for i in x.fn.insts if i.line), "src/x86/init.c")
    basem, basef, extm, extf = sig[4:8], sig[8:12], sig[16:20], sig[20:28]

    def val(w, v):
        return vf.eq(w, vf.const(v, len(w)))

    def family(f):
        if f < 0xF:
            return val(basef, f)
        return b.AND(val(basef, 0xF), val(extf, f - 0xF))
    # extended fields are zero where the vendors define them so
    A = x.avail(1)
    A = b.AND(A, b.OR(val(basef, 0xF), val(extf, 0)))
    A = b.AND(A, b.OR(b.OR(val(basef, 0xF), val(basef, 6)), val(extm, 0)))

    def models(ms):
        r = 0
        if len(ms) == 256:
            return 1
        for m in ms:
            r = b.OR(r, b.AND(val(basem, m & 15), val(extm, m >> 4)))
        return r
    want = {}
    for (v, f), us in spec.UARCH.items():
        fam = b.AND(ident(x, v, wide), family(f))
        for u, (m64, m32) in us.items():
            ms = list(m64) + ([] if wide else list(m32))
            if ms:
                want[u] = b.OR(want.get(u, 0), b.AND(fam, models(ms)))
    rest = A
    for u in sorted({u for us in spec.UARCH.values() for u in us}):
        w = want.get(u, 0)
        rest = b.AND(rest, b.NOT(w))
        d = b.AND(A, b.XOR(val(got, x.m.di.enums["cpuinfo_uarch_" + u]), w))
        ok, txt = verdict(x, d, f"microarchitecture '{u}' is not reported exactly for its families and models, e.g. when ")
        out.append((f"uarch {u}", ok, where, txt, name))
    d = b.AND(rest, b.NOT(val(got, x.m.di.enums["cpuinfo_uarch_unknown"])))
    # enumerators that the specification does not know are left to the code
    known = {x.m.di.enums["cpuinfo_uarch_" + u] for us in spec.UARCH.values() for u in us}
    dk = 0
    for k in known:
        dk = b.OR(dk, val(got, k))
    ok, txt = verdict(x, b.AND(d, dk), "a model that is not documented is reported with a microarchitecture, e.g. when ")
    if ok and d:
        ok, txt = None, "microarchitecture without a specification entry"
    out.append(("unknown model", ok, where, txt, name))
    cp = x.field("cpuinfo_x86_processor", "cpuid")
    d = 0
    for p, q in zip(cp, sig):
        d = b.OR(d, b.AND(x.avail(1), b.XOR(p, q)))
    ok, txt = verdict(x, d, "the reported CPUID signature is not the one of leaf 1, e.g. when ")
    out.append(("signature", ok, where, txt, name))
    return out


def main():
    ck = check.Check(
        "D02", "other",
        technique="Boolean-function data-flow analysis from CPUID to the decoded microarchitecture",
        rule="the reported microarchitecture is U exactly when vendor, family and model are documented as U; the reported "
             "signature is leaf 1 EAX",
        assumptions=["extended family is zero unless the base family is 15, extended model is zero unless the base family "
                     "is 6 or 15 (vendor documentation)"])
    for r in pmap(analyse, ("x86_64", "i686")):
        for o in r:
            ck.obligation(*o)
    ck.count("family/model entries", sum(len(a) + len(b) for us in spec.UARCH.values() for a, b in us.values()))
    ck.finish(80)


if __name__ == "__main__":
    check.main(main)
