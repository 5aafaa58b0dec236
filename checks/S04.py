import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.armisa import Decoder, hwcap_source, kernel_hwcaps, usable_source, wiring
from spec import arm_isa as spec

ROOT = "cpuinfo_arm_linux_decode_isa_from_proc_cpuinfo"


def analyse(ck, cfg, arch):
    d = Decoder(cfg, ROOT)
    vf, b = d.vf, d.b
    AND, OR, NOT = b.AND, b.OR, b.NOT
    where = next((i.loc() for i in d.fn.insts if i.line), "src/arm/linux/aarch32-isa.c")
    ints = [a for a in d.args if isinstance(a, tuple)]
    f1, f2, midr, ver, flags = ints
    ck.count("IR instructions of the decoder", len(d.fn.insts))

    def h(n):
        return f1[spec.HWCAP32[n]]

    def any_(*xs):
        r = 0
        for x in xs:
            r = OR(r, x)
        return r

    def ge(w, n):
        return NOT(vf.ult(w, vf.const(n, len(w))))

    def cores(*p):
        return d.core(midr, p)

    f2any = any_(*[f2[k] for k in range(5)])
    v8 = OR(ge(ver, 8), f2any)
    old = NOT(v8)
    is7 = AND(ge(ver, 7), NOT(ge(ver, 8)))
    arm11 = 1
    for k in list(range(12, 16)) + list(range(24, 32)):
        arm11 = AND(arm11, midr[k] if (0x4100B000 >> k) & 1 else NOT(midr[k]))
    v7feat = any_(*[h(n) for n in ("VFPv3", "VFPv3D16", "VFPD32", "VFPv4", "NEON", "IDIVT", "IDIVA")])
    ge7 = OR(v7feat, AND(is7, NOT(arm11)))          # (below v8)
    ge6 = OR(ge7, ge(ver, 6))
    idiv2 = AND(h("IDIVA"), h("IDIVT"))
    E_, T_, J_ = flags[1], flags[0], flags[2]
    exp = {}
    exp["armv5e"] = any_(v8, ge6, h("EDSP"), E_)
    exp["armv6"] = OR(v8, ge6)
    exp["armv6k"] = exp["armv7"] = OR(v8, ge7)
    exp["armv7mp"] = OR(v8, AND(ge7, OR(idiv2, cores(*spec.ARMV7MP))))
    exp["armv8"] = v8
    exp["thumb"] = any_(v8, h("THUMB"), T_)
    exp["thumb2"] = OR(v8, AND(OR(h("THUMB"), T_), OR(ge7, cores(spec.ARM1156))))
    exp["thumbee"] = AND(old, h("THUMBEE"))
    exp["jazelle"] = AND(old, OR(h("JAVA"), J_))
    exp["idiv"] = any_(v8, idiv2, cores(*spec.KRAIT))
    v3 = any_(*[h(n) for n in ("VFPv3", "VFPv3D16", "VFPD32", "VFPv4", "NEON")])
    vfp = OR(v3, h("VFP"))
    if arch >= 7:
        exp["vfpv2"] = 0
        exp["vfpv3"] = OR(v8, vfp)
    else:
        fpsid = [w for k, w in d.regs.items() if "p10" in k[1]]
        sub = [w for w in fpsid]
        hasv2 = 0
        if sub:
            s = sub[0][16:23]
            hasv2 = any_(*s)
        exp["vfpv2"] = AND(old, AND(vfp, AND(NOT(OR(ge7, v3)), hasv2)))
        exp["vfpv3"] = OR(v8, AND(vfp, OR(ge7, v3)))
    exp["d32"] = OR(v8, any_(h("VFPD32"), h("NEON")))
    exp["fp16"] = any_(v8, h("VFPv4"), cores(spec.CORTEX_A9), cores(*spec.SCORPION))
    exp["fma"] = OR(v8, h("VFPv4"))
    exp["neon"] = OR(v8, h("NEON"))
    if arch >= 8:
        exp["wmmx"] = exp["wmmx2"] = 0
    else:
        wc = [w for k, w in d.regs.items() if "p1," in k[1]]
        t = wc[0][8:16] if wc else (0,) * 8
        exp["wmmx"] = AND(old, AND(h("IWMMXT"), ge(t, 0x10)))
        exp["wmmx2"] = AND(old, AND(h("IWMMXT"), ge(t, 0x20)))
    exy = d.is_chip("samsung_exynos", 9810)
    fr = AND(v8, AND(NOT(exy), cores(*spec.FP16_RDM_32)))
    exp["fp16arith"] = exp["rdm"] = fr
    dot = 0
    for p, v in spec.DOT_32.items():
        dot = OR(dot, AND(cores(p), d.variant_ge(midr, v)))
    bad = any_(d.is_chip("spreadtrum_sc", 9863), d.is_chip("unisoc_t", 310), d.is_chip("unisoc_ums", 312))
    exp["dot"] = AND(v8, AND(NOT(bad), dot))
    for n, k in spec.HWCAP2_32.items():
        exp[n.lower()] = f2[k]
    missing = [f for f in d.fields if f not in exp]
    for f in missing:
        g = d.flag(f)
        ck.obligation(f, True if g == 0 else None, where, "flag not covered by the specification", cfg.name)
    for f, e in exp.items():
        if f in d.fields:
            d.compare(ck, f, e, where)
    hw = kernel_hwcaps("arm-linux-gnueabihf", None)
    if hw:
        for tab, pre in ((spec.HWCAP32, "HWCAP"), (spec.HWCAP2_32, "HWCAP2")):
            for n, k in tab.items():
                if (pre, n) in hw and hw[(pre, n)] != k:
                    raise RuntimeError(f"specification error: {pre}_{n} is bit {hw[(pre, n)]} in the kernel headers")
                ck.count("HWCAP bits cross-checked with kernel headers", 1 if (pre, n) in hw else 0)


def main():
    ck = check.Check(
        "S04", "other",
        technique="Boolean-function data-flow analysis of the AArch32 ISA decoder against HWCAP and core semantics",
        rule="each AArch32 ISA flag is exactly the documented Boolean function of HWCAP, HWCAP2, the architecture "
             "version and flags, the MIDR implementer/part/variant, the chipset and the coprocessor ID registers, "
             "for all inputs",
        assumptions=["the list of cores with FP16/RDM/DOT is the one documented in the specification table"])
    for n, a in (("armv7", 7), ("armv7-android", 7)):
        if n in build.ALL:
            analyse(ck, build.ALL[n], a)
            wiring(ck, build.ALL[n], ROOT,
                   ["hwcap1", "hwcap2", "midr", "architecture_version", "architecture_flags"])
    hwcap_source(ck, build.ALL["armv7"])
    usable_source(ck, build.LINUX["armv7"])
    analyse(ck, build.ALL["armv7"].with_flags("armv6k", ["-march=armv6k"]), 6)
    analyse(ck, build.ALL["armv7"].with_flags("armv8", ["-march=armv8-a"]), 8)
    ck.finish(100)


check.main(main)
