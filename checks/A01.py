import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.vflow import VFlow


def one(cfg):
    out = []
    qs = [q[0] for q in api.queries(cfg)]
    flags = util.init_flag(cfg)
    if len(flags) != 1:
        raise RuntimeError(f"cannot identify the initialization flag: {flags}")
    flag, = flags
    p = build.inlined(cfg, qs + ["cpuinfo_initialize"])
    m = build.load(p, cfg)
    for q in qs:
        fn = m.functions.get(q)
        if fn is None or fn.decl:
            out.append((q, False, "include/cpuinfo.h", "declared by the public header but not defined in this configuration",
                        cfg.name))
            continue
        vf = VFlow(m)
        b = vf.b
        bits = vf.byte(("g", flag), 0)
        anyset = 0
        for x in bits:
            anyset = b.OR(anyset, x)
        true1 = bits[0]
        for x in bits[1:]:
            true1 = b.AND(true1, b.NOT(x))
        _, g = vf.run(fn)
        where = next((i.loc() for i in fn.insts if i.line), q)
        ok1 = b.implies(g, anyset)
        out.append((q + ": aborts unless initialized", ok1, where,
                    f"{q} can return normally while the initialization flag '{flag}' is false"
                    + ("" if ok1 else f" (returns when {b.show(g, 2)})"), cfg.name))
        ok2 = b.implies(true1, g)
        out.append((q + ": returns once initialized", ok2, where,
                    f"{q} can fail to return although the library is initialized"
                    + ("" if ok2 else f" (returns only when {b.show(g, 2)})"), cfg.name))
    return out, len(qs)


def main():
    ck = check.Check(
        "A01", "other",
        technique="Boolean-function data-flow analysis of every public query in every build configuration",
        rule="the condition under which a public query reaches a normal return is exactly 'the flag returned by "
             "cpuinfo_initialize() is set'; every other way out is a noreturn call",
        trusted=["clang 18 front end", "LLVM 18 IR passes sroa/inline/simplifycfg", "vf Boolean-function analysis",
                 "noreturn declaration of abort() in libc headers"],
        assumptions=["cpuinfo_has_*() style inline accessors are not queries in the sense of this property"])
    cfgs = []
    for c in build.ALL.values():
        for lv in range(0, 6):
            cfgs.append(c.with_level(lv))
    for n in ("x86_64", "aarch64"):
        cfgs.append(build.LINUX[n].with_flags("ndebug", ["-DNDEBUG=1"]))
    for r, n in util.pmap(one, cfgs):
        ck.count("public queries x configurations", n)
        for o in r:
            ck.obligation(*o)
    ck.count("build configurations (architecture x log level)", len(cfgs))
    ck.finish(500)


check.main(main)
