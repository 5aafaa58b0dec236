import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.vflow import VFlow

ROOT = "cpuinfo_riscv_linux_decode_isa_from_hwcap"
LETTERS = "imafdcv"


def main():
    ck = check.Check(
        "S05", "other",
        technique="Boolean-function data-flow analysis of the RISC-V ISA decoder against HWCAP semantics",
        rule="each RISC-V ISA flag is exactly the bit of AT_HWCAP that the kernel assigns to the extension's letter")
    cfg = build.ALL["riscv64"]
    m = build.load(build.inlined(cfg, [ROOT]), cfg)
    fn = m.functions.get(ROOT)
    if fn is None or fn.decl:
        raise RuntimeError("anchor %s not found" % ROOT)
    where = next((i.loc() for i in fn.insts if i.line), "src/riscv/linux/riscv-isa.c")

    def hook(vf, i, nm, args, c):
        if nm == "getauxval":
            return vf.sym(i.ty, ("getauxval", vf.cval(args[0]) if vf.is_const(args[0]) else "?"))
        return None
    vf = VFlow(m, call_hook=hook)
    fl = m.di.bytefields("cpuinfo_riscv_isa")
    base = ("argp", fn.name, 0)
    vf.mem[base] = {o + k: (0,) * 8 for o, s in fl.values() for k in range(s)}
    vf.run(fn)
    hw = vf.opaque(("getauxval", 16), 64)
    for l in LETTERS:
        if l not in fl:
            raise RuntimeError("flag %s not in cpuinfo_riscv_isa" % l)
        g = 0
        for x in vf.byte(base, fl[l][0]):
            g = vf.b.OR(g, x)
        ck.obligation(l, g == hw[ord(l) - ord("a")], where,
                      f"flag '{l}' is not bit {ord(l) - ord('a')} of AT_HWCAP", cfg.name)
    for f, (o, s) in fl.items():
        if f not in LETTERS:
            g = vf.byte(base, o)
            ck.obligation(f, True if not any(g) or f == "e" else None, where, "not covered by the specification", cfg.name)
    # the initialization decodes into the published ISA structure
    m2 = build.load(build.inlined(cfg, ["cpuinfo_riscv_linux_init"], noinline=[ROOT]), cfg)
    f2 = m2.functions["cpuinfo_riscv_linux_init"]
    from vf.ir import Global
    from vf.util import callee
    calls = [i for i in f2.insts if callee(i) == ROOT]
    ok = any(isinstance(c.args[0], Global) and c.args[0].name == "cpuinfo_isa" for c in calls)
    ck.obligation("decoded into the published flags", True if ok else (None if calls else False), "src/riscv/linux/init.c",
                  "the initialization does not decode the ISA flags", cfg.name)
    ck.count("IR instructions", len(fn.insts))
    ck.finish(8)


check.main(main)
