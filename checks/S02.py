import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.util import pmap
from vf.x86 import X86, pure
from vf.bdd import name as nm


def known(k):
    # counters of the loops over leaves and entries take all their values
    return pure(k) or k[0] == "bit" and isinstance(k[1], tuple) and k[1] and k[1][0] == "phi"


def analyse(cfgname):
    cfg = build.LINUX[cfgname]
    # the tables of cache descriptors execute no CPUID
    x = X86(cfg, skip=["cpuinfo_x86_decode_cache_descriptor"], unroll=False).run()
    vf, b = x.vf, x.vf.b
    out = []

    def add(key, ok, where, text):
        out.append((key, ok, where, text, cfg.name))

    def example(c, cond):
        w = b.sat_one(b.AND(c, b.NOT(cond)))
        return ", ".join(f"{nm(k)}={v}" for k, v in list(w.items())[:12]) if w else ""

    def sure(c, cond):
        return vf.decide(b.AND(c, b.NOT(cond)), known)[0]

    via = 0
    for ident in (b"CentaurHauls", b"VIA VIA VIA "):
        v = 1
        for k, reg in enumerate(("ebx", "edx", "ecx")):
            v = b.AND(v, vf.eq(x.reg(0, reg), vf.const(int.from_bytes(ident[4 * k:4 * k + 4], "little"), 32)))
        via = b.OR(via, v)
    for i, c, leaf, sub, key in x.cpuids:
        if vf.is_const(leaf):
            l = vf.cval(leaf)
            if l in (0, 0x80000000):
                add(f"leaf {l:#x}", True, i.loc(), "")
                continue
            cond = via if l == 0xC0000000 else x.avail(l)
            name = f"leaf {l:#x}"
        else:
            cond = 0
            word, add_, mul = leaf, 0, 1
            t = vf.terms.get(leaf)
            if t and t[0] == "lin" and len(t[3]) == 1:        # constant + multiple of one counter
                add_, (word, mul) = t[2], t[3][0]
            for k in range(64):
                e = vf.eq(word, vf.const(k, 32))
                l = (add_ + mul * k) & 0xFFFFFFFF
                if b.AND(c, e) != 0:
                    cond = b.OR(cond, b.AND(e, x.avail(l)))
            name = "computed leaf"
        ok = sure(c, cond)
        if ok is False and not vf.is_const(leaf) and vf.sup(leaf) and b.implies(cond, 0):
            ok = None                                         # leaf number not understood
        add(name, ok, i.loc(), f"CPUID {name} is read although the processor need not implement it, e.g. when "
            + ("" if ok else example(c, cond)))
    osx = x.bit(1, "ecx", 27)
    for i, c, s in x.asms:
        if "0x0F, 0x01, 0xD0" in s or "xgetbv" in s:
            ok = sure(c, b.AND(osx, x.avail(1)))
            add("XGETBV", ok, i.loc(), "XGETBV is executed although the OS has not enabled it (OSXSAVE clear), e.g. when "
                + ("" if ok else example(c, osx)))
        elif "fxsave" in s:
            have = b.OR(x.bit(1, "edx", 24), x.bit(0x80000001, "edx", 24))
            ok = sure(c, have)
            add("FXSAVE", ok, i.loc(), "FXSAVE is executed although the processor does not report it, e.g. when "
                + ("" if ok else example(c, have)))
    return out, len(x.fn.insts)


def main():
    ck = check.Check(
        "S02", "other",
        technique="Boolean-function data-flow analysis of the CPUID reads",
        rule="the reachability condition of every CPUID read implies that the processor reports that leaf (maximum basic "
             "leaf, maximum extended leaf, vendor for Centaur leaves); XGETBV implies OSXSAVE; FXSAVE implies FXSR")
    for res, n in pmap(analyse, ["x86_64", "i686"]):
        ck.count("IR instructions", n)
        for o in res:
            ck.obligation(*o)
            ck.count("CPUID/XGETBV/FXSAVE sites")
            ck.sample({"site": o[0], "config": o[4]})
    ck.finish(30)


check.main(main)
