import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import x86_ident as spec
from vf import build, check
from vf.bdd import name as nm
from vf.util import pmap
from vf.x86 import X86, pure

ROOT = "cpuinfo_x86_init_processor"
# the identification does not depend on these parts of the detection
SKIP = ["cpuinfo_x86_detect_cache", "cpuinfo_x86_detect_topology", "cpuinfo_x86_detect_isa"]


def detect(cfg):
    return X86(cfg, ROOT, skip=SKIP).run()


def ident(x, vendor, wide):
    """the identification string is one of this vendor's"""
    vf, b = x.vf, x.vf.b
    r = 0
    s64, s32 = spec.VENDORS[vendor]
    for s in s64 + (() if wide else s32):
        v = 1
        for k, reg in enumerate(("ebx", "edx", "ecx")):
            v = b.AND(v, vf.eq(x.reg(0, reg), vf.const(int.from_bytes(s[4 * k:4 * k + 4].encode(), "little"), 32)))
        r = b.OR(r, v)
    return r


def verdict(x, d, text):
    """-> (verdict, description)"""
    ok, w = x.vf.decide(d, pure)
    return ok, "" if ok else "depends on values that the analysis does not know" if ok is None else text + example(w)


def example(w):
    by = {}
    for k, v in w.items():
        if isinstance(k, tuple) and k[0] == "bit" and v:
            by[k[1]] = by.get(k[1], 0) | 1 << k[2]
    return ", ".join(f"{nm(('bit', k, 0)).rsplit('[', 1)[0]}={v:#x}" for k, v in by.items()) or "all inputs zero"


def analyse(name):
    cfg = build.LINUX[name]
    wide = name == "x86_64"
    x = detect(cfg)
    vf, b = x.vf, x.vf.b
    got = x.field("cpuinfo_x86_processor", "vendor")
    out = []
    where = next((i.loc() for i in x.fn.insts if i.line), "src/x86/init.c")
    rest = 1
    for v in sorted(spec.VENDORS):
        code = x.m.di.enums["cpuinfo_vendor_" + v]
        want = ident(x, v, wide)
        rest = b.AND(rest, b.NOT(want))
        d = b.XOR(vf.eq(got, vf.const(code, len(got))), want)
        ok, txt = verdict(x, d, f"vendor '{v}' is not reported exactly for its identification strings, e.g. when ")
        out.append((f"vendor {v}", ok, where, txt, name))
    unk = x.m.di.enums["cpuinfo_vendor_unknown"]
    d = b.AND(rest, b.NOT(vf.eq(got, vf.const(unk, len(got)))))
    ok, txt = verdict(x, d, "a processor with another identification string is not reported as unknown vendor, e.g. when ")
    out.append(("unknown vendor", ok, where, txt, name))
    return out


def main():
    ck = check.Check(
        "D01", "other",
        technique="Boolean-function data-flow analysis from CPUID to the decoded vendor",
        rule="the reported vendor is V exactly when the 12-byte identification string of leaf 0 is one of V's")
    for r in pmap(analyse, ("x86_64", "i686")):
        for o in r:
            ck.obligation(*o)
    ck.count("identification strings", sum(len(a) + len(b) for a, b in spec.VENDORS.values()))
    ck.finish(26)


if __name__ == "__main__":
    check.main(main)
