import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.armisa import Decoder, hwcap_source, kernel_hwcaps, usable_source, wiring
from spec import arm_isa as spec

ROOT = "cpuinfo_arm64_linux_decode_isa_from_proc_cpuinfo"


def analyse(ck, cfg):
    d = Decoder(cfg, ROOT)
    vf, b = d.vf, d.b
    where = next((i.loc() for i in d.fn.insts if i.line), "src/arm/linux/aarch64-isa.c")
    ints = [a for a in d.args if isinstance(a, tuple)]
    f1, f2, midr = ints[0], ints[1], ints[2]
    ck.count("IR instructions of the decoder", len(d.fn.insts))

    def bit(w, n):
        return f1[spec.HWCAP64[n]] if w == 1 else f2[spec.HWCAP2_64[n]]

    seen = set()
    for f, alts in spec.PLAIN64.items():
        if f not in d.fields:
            continue
        seen.add(f)
        want = 0
        for w, n in alts:
            want = b.OR(want, bit(w, n))
        d.compare(ck, f, want, where)
    exy = d.is_chip("samsung_exynos", 9810)
    known = d.core(midr, spec.FP16_RDM_64)
    d.compare(ck, "fp16arith", b.AND(b.NOT(exy), b.OR(known, b.AND(bit(1, "FPHP"), bit(1, "ASIMDHP")))), where)
    d.compare(ck, "rdm", b.AND(b.NOT(exy), b.OR(known, bit(1, "ASIMDRDM"))), where)
    listed = d.core(midr, spec.DOT_64)
    dot = b.AND(b.NOT(listed), bit(1, "ASIMDDP"))
    for p, v in spec.DOT_64.items():
        dot = b.OR(dot, b.AND(d.core(midr, [p]), d.variant_ge(midr, v)))
    d.compare(ck, "dot", dot, where)
    seen |= {"fp16arith", "rdm", "dot"}
    # SVE vector length
    if "svelen" in d.fields:
        seen.add("svelen")
        o, s = d.fields["svelen"]
        w = ()
        for k in range(s):
            w += vf.byte(d.isabase, o + k)
        pr = [x for x in d.prctl if vf.is_const(x[2][0]) and vf.cval(x[2][0]) == 51]
        ck.obligation("svelen: asks the kernel", len(pr) == 1, where,
                      "the SVE vector length is not obtained from prctl(PR_SVE_GET_VL)", cfg.name)
        if pr:
            i, c, args = pr[0]
            r = [x for x, t in vf.terms.items() if isinstance(t, tuple) and t[0] == "call" and t[1] == "prctl"][0]
            want = tuple(b.AND(x, b.NOT(r[31])) for x in r[:16])
            want = want + (0,) * (len(w) - 16) if len(w) > 16 else want[:len(w)]
            ck.obligation("svelen", w == want, i.loc(),
                          "the recorded SVE vector length is not the length field of the kernel's answer (0 on error)",
                          cfg.name)
    for f in d.fields:
        if f not in seen:
            g = d.flag(f)
            ck.obligation(f, None if g else True, where, "flag not covered by the specification", cfg.name)
    hw = kernel_hwcaps("aarch64-linux-gnu", None)
    if hw:
        for tab, pre in ((spec.HWCAP64, "HWCAP"), (spec.HWCAP2_64, "HWCAP2")):
            for n, k in tab.items():
                if (pre, n) in hw and hw[(pre, n)] != k:
                    raise RuntimeError(f"specification error: {pre}_{n} is bit {hw[(pre, n)]} in the kernel headers")
                ck.count("HWCAP bits cross-checked with kernel headers", 1 if (pre, n) in hw else 0)


def main():
    ck = check.Check(
        "S03", "other",
        technique="Boolean-function data-flow analysis of the AArch64 ISA decoder against HWCAP semantics",
        rule="each AArch64 ISA flag is exactly the documented Boolean function of AT_HWCAP, AT_HWCAP2, the MIDR "
             "implementer/part/variant and the chipset, for all 2^128 inputs",
        assumptions=["the list of cores with unreported FP16/RDM/DOT is the one documented in the specification table"])
    for n in ("aarch64", "aarch64-android"):
        analyse(ck, build.ALL[n])
        hwcap_source(ck, build.ALL[n])
        wiring(ck, build.ALL[n], ROOT, ["hwcap1", "hwcap2", "midr"])
    usable_source(ck, build.LINUX["aarch64"])
    ck.finish(50)


check.main(main)
