import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.vflow import VFlow
from spec import accessors as spec


def one(cfg):
    out = []
    target = cfg.name.split("-")[0].split("@")[0]
    acc = api.inline_accessors(cfg)
    m = build.load(build.inlined(cfg, ["vf_" + a[0] for a in acc], extra_sources=[api.wrappers(cfg)]), cfg)
    st = spec.STRUCT[target]
    fl = m.di.bytefields(st)
    n = 0
    for a, _, rt, params in acc:
        fn = m.functions["vf_" + a]
        vf = VFlow(m)
        b = vf.b
        R, g = vf.run(fn)
        k = re.match(r"cpuinfo_has_([a-z0-9]+?)_(\w+)$", a)
        where = next((i.loc() for i in fn.insts if i.line and "cpuinfo.h" in i.file), "include/cpuinfo.h")
        if not where.startswith("include"):
            where = "include/" + where.split("include/")[-1]
        where = f"{where} ({a})"
        n += 1
        if g != 1:
            out.append((a + ": total", False, where, f"{a} does not always return", cfg.name))
        if k and k.group(1) in spec.PREFIX:
            arch, name = k.groups()
            e = spec.expected(target, arch, name, fl)
            if e is None:
                out.append((a, None, where, "not covered by the specification of accessors", cfg.name))
                continue
            r = 0
            for x in R:
                r = b.OR(r, x)
            if e is True or e is False:
                ok = r == (1 if e else 0)
                want = "always true" if e else "always false"
            else:
                ok = True
                conj = 1
                low = 1
                for f in e:
                    o, s = fl[f]
                    by = vf.byte(("g", "cpuinfo_isa"), o)
                    anyb = 0
                    for x in by:
                        anyb = b.OR(anyb, x)
                    one_ = by[0]
                    for x in by[1:]:
                        one_ = b.AND(one_, b.NOT(x))
                    conj = b.AND(conj, anyb)
                    low = b.AND(low, one_)
                # stored booleans are 0 or 1
                H = 1
                ok = b.implies(low, r)
                for f in e:
                    o, s = fl[f]
                    zero = 1
                    for x in vf.byte(("g", "cpuinfo_isa"), o):
                        zero = b.AND(zero, b.NOT(x))
                    # the accessor is false whenever one of its flags is clear
                    ok = ok and b.AND(zero, r) == 0
                want = " and ".join(e)
            out.append((a, ok, where, f"{a} must be {want} on {target}, but it is {b.show(r, 2)}", cfg.name))
        elif a == "cpuinfo_get_max_arm_sve_length" or a == "cpuinfo_get_max_arm_sme_length":
            f = "svelen" if "sve" in a else "smelen"
            if target == "aarch64" and f in fl:
                o, s = fl[f]
                w = ()
                for q in range(s):
                    w += vf.byte(("g", "cpuinfo_isa"), o + q)
                w = (w + (0,) * len(R))[:len(R)]
                want = ((0,) * 3 + w)[:len(R)]
                ok = R == want
            else:
                ok = all(x == 0 for x in R)
            out.append((a, ok, where, f"{a} must be 8 times the recorded vector length in bytes (0 on other "
                        "architectures)", cfg.name))
        else:
            out.append((a, None, where, "not covered by the specification of accessors", cfg.name))
    return out, n


def main():
    ck = check.Check(
        "A05", "other",
        technique="Boolean-function data-flow analysis of every inline accessor of the public header, instantiated for "
                  "each architecture",
        rule="cpuinfo_has_<arch>_<feature> is exactly the detected flag of that feature (or the architectural constant) "
             "on its own architecture and false elsewhere")
    cfgs = list(build.LINUX.values())
    for r, n in util.pmap(one, cfgs):
        ck.count("accessors x architectures", n)
        for o in r:
            ck.obligation(*o)
    ck.finish(600)


check.main(main)
