import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import arm_ident as spec
from vf import build, check
from vf.bdd import name as nm
from vf.util import callee, pmap
from vf.vflow import VFlow, Ptr
from vf.x86 import UNROLL

ROOT = "cpuinfo_arm_decode_vendor_uarch"


def pure(k):
    return k[0] == "bit" and k[1][0] == "arg"


def example(w):
    by = {}
    for k, v in w.items():
        if v:
            by[k[1][2]] = by.get(k[1][2], 0) | 1 << k[2]
    return ", ".join(f"{n}={v:#x}" for n, v in sorted(by.items())) or "all inputs zero"


def analyse(name):
    cfg = build.LINUX[name]
    bits = 64 if name == "aarch64" else 32
    m = build.load(build.inlined(cfg, [ROOT], post=UNROLL), cfg)
    fn = m.functions.get(ROOT)
    if fn is None:
        raise RuntimeError("anchor function %s not found" % ROOT)
    vf = VFlow(m)
    b = vf.b
    args, ptrs, ints = [], [], []
    for a in fn.args:
        if a.ty.kind == "ptr":
            base = ("argp", fn.name, a.index)
            vf.mem[base] = {k: (0,) * 8 for k in range(4)}       # unknown vendor, unknown microarchitecture
            ptrs.append(base)
            args.append(Ptr([(1, base, 0)]))
        else:
            w = vf.sym(a.ty, ("arg", a.index, "MIDR" if not ints else "VFPv4"))
            ints.append(w)
            args.append(w)
    vf.run(fn, args)
    midr = ints[0]
    where = next((i.loc() for i in fn.insts if i.line), "src/arm/uarch.c")
    out = []
    got = [sum((vf.byte(p, k) for k in range(4)), ()) for p in ptrs]
    gv, gu = got

    def val(w, v):
        return vf.eq(w, vf.const(v, len(w)))
    impl, part, var = midr[24:32], midr[4:16], midr[20:24]
    uarch, vendor = {}, {}

    def give(cond, u, v):
        uarch[u] = b.OR(uarch.get(u, 0), cond)
        for x in vendor:
            if x != v:
                vendor[x] = b.AND(vendor[x], b.NOT(cond))
        vendor[v] = b.OR(vendor.get(v, 0), cond)
    known = 0
    for i, (v, arch) in spec.IMPLEMENTER.items():
        if bits in arch:
            vendor[v] = b.OR(vendor.get(v, 0), val(impl, ord(i)))
    default = {i: v for i, (v, arch) in spec.IMPLEMENTER.items() if bits in arch}
    for (i, d), u in spec.FAMILIES.items():
        if bits == 32:
            give(b.AND(val(impl, ord(i)), val(part[8:], d)), u, default[i])
    for (i, p), (u, v, arch) in spec.PARTS.items():
        if bits in arch:
            give(b.AND(val(impl, ord(i)), val(part, p)), u, v or default[i])
    for (i, p, vs), u in spec.VARIANTS.items():
        c = 0
        for k in vs:
            c = b.OR(c, val(var, k))
        give(b.AND(c, b.AND(val(impl, ord(i)), val(part, p))), u, default[i])
    if bits == 32:
        c = b.AND(val(impl, ord("Q")), val(part, 0x00F))
        f = 0
        for x in ints[1]:
            f = b.OR(f, x)
        give(b.AND(c, f), "cortex_a5", "arm")
        give(b.AND(c, b.NOT(f)), "scorpion", "qualcomm")

    def compare(kind, word, want, prefix):
        rest = 1
        dk = 0
        allspec = sorted({u for u, _, _ in spec.PARTS.values()} | set(spec.VARIANTS.values()) | set(spec.FAMILIES.values())
                         | {"scorpion"}) if kind == "microarchitecture" else sorted({v for v, _ in spec.IMPLEMENTER.values()})
        for u in allspec:
            e = val(word, m.di.enums[prefix + u])
            w = want.get(u, 0)
            rest = b.AND(rest, b.NOT(w))
            dk = b.OR(dk, e)
            ok, wit = vf.decide(b.XOR(e, w), pure)
            out.append((f"{kind} {u}", ok, where, "" if ok else "depends on values that the analysis does not know"
                        if ok is None else f"{kind} '{u}' is not reported exactly for its MIDR values, e.g. when "
                        + example(wit), name))
        d = b.AND(rest, b.NOT(val(word, 0)))
        ok, wit = vf.decide(b.AND(d, dk), pure)
        if ok and d:
            ok = None
        out.append((f"unknown {kind}", ok, where, "not in the specification" if ok is None else "" if ok else
                    f"an undocumented MIDR value is reported with a {kind}, e.g. when " + example(wit), name))
    compare("microarchitecture", gu, uarch, "cpuinfo_uarch_")
    compare("vendor", gv, vendor, "cpuinfo_vendor_")
    wiring(cfg, out)
    return out


def wiring(cfg, out):
    """initialization decodes the MIDR of the processor whose vendor and microarchitecture it stores"""
    from vf.prov import root as proot
    from vf.ir import Inst
    m = build.load(build.inlined(cfg, ["cpuinfo_arm_linux_init"], noinline=[ROOT],
                                 post="function(sroa,simplifycfg,early-cse,newgvn)"), cfg)
    fn = m.functions.get("cpuinfo_arm_linux_init")
    calls = [i for i in fn.insts if callee(i) == ROOT] if fn else []
    if not calls:
        out.append(("decoder inputs", None, "src/arm/linux/init.c", "decoder not called directly from the initialization",
                    cfg.name))
        return
    fl = m.di.bytefields("cpuinfo_arm_linux_processor")
    for c in calls:
        ps = [a for a in c.args if a.ty.kind == "ptr"]
        mi = [a for a in c.args if a.ty.kind == "int"][0]
        bad, ok = [], True
        places = []
        for a, f in zip([mi] + ps, ("midr", "vendor", "uarch")):
            if f == "midr":
                if not (isinstance(a, Inst) and a.op == "load"):
                    ok = None
                    continue
                a = a.ops[0]
            base, off, idx = proot(a)
            o = fl[f][0]
            names = [n for n, (x, s) in fl.items() if x == off]
            if len(idx) == 1:
                places.append((base, idx[0][0], idx[0][1]))
                if names and f not in names:
                    bad.append(f"'{names[0]}' instead of '{f}'")
            else:
                ok = None
        if bad:
            ok = False
        elif ok and len(set((id(x), id(y), s) for x, y, s in places)) > 1:
            ok = None
        out.append(("decoder inputs", ok, c.loc(), "the decoder does not work on the MIDR, vendor and microarchitecture of one "
                    "processor: " + ", ".join(bad) if bad else "processor records not recognised" if ok is None else "", cfg.name))


def main():
    ck = check.Check(
        "D03", "other",
        technique="Boolean-function data-flow analysis from the MIDR to the decoded vendor and microarchitecture",
        rule="vendor and microarchitecture are exactly the documented functions of implementer, part and variant")
    for r in pmap(analyse, ("aarch64", "armv7")):
        for o in r:
            ck.obligation(*o)
    ck.count("documented part numbers", len(spec.PARTS) + len(spec.VARIANTS) + len(spec.FAMILIES))
    ck.finish(100)


if __name__ == "__main__":
    check.main(main)
