import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check, own
from vf.util import callee, pmap

KINDS = ("leak", "double release", "use after release", "published released", "invalid release")


def analyse(args):
    name, level, kinds = args
    cfg = build.ALL[name]
    if level is not None:
        cfg = cfg.with_level(level)
    m = build.load(build.inlined(cfg, ["cpuinfo_initialize", "cpuinfo_deinitialize"],
                                 post="function(sroa,simplifycfg,jump-threading,simplifycfg)"), cfg)
    out, cnt = [], {"functions": 0, "acquisition sites": 0, "release sites": 0, "states": 0, "control-flow blocks": 0}
    for f in m.functions.values():
        if f.decl:
            continue
        ss = own.sites(f)
        cnt["functions"] += 1
        cnt["release sites"] += sum(1 for i in f.insts if callee(i) in own.REL)
        if not ss:
            continue
        cnt["control-flow blocks"] += len(f.blocks)
        per = {}
        for s in ss:
            k = (callee(s), s.file)
            per[k] = per.get(k, 0) + 1
            ts = own.Typestate(f, s)
            cnt["acquisition sites"] += 1
            cnt["states"] += ts.states
            bad = [x for x in ts.findings if x.kind in kinds]
            key = f"{callee(s)} #{per[k]} in {s.file}"
            if not bad:
                out.append((key, True, s.loc(), "", cfg.name))
            for x in bad:
                out.append((f"{x.kind}: {key}", False, x.inst.loc(),
                            f"the resource acquired at {s.loc()} by {callee(s)}() is {x.text}", cfg.name))
    return out, cnt


def run(ck, kinds, minimum):
    jobs = [(n, None, kinds) for n in build.ALL]
    if ck.tier == "thorough":
        jobs += [(n, l, kinds) for n in build.ALL for l in (0, 5)]
    for res, cnt in pmap(analyse, jobs):
        for k, v in cnt.items():
            ck.count(k, v)
        for o in res:
            ck.obligation(*o)
    ck.finish(minimum)


def main():
    ck = check.Check(
        "I03", "other",
        technique="typestate analysis of every memory block, file descriptor and handle that initialization acquires",
        rule="on every path from an acquisition to the end of initialization the resource is released exactly once, or "
             "published and then never released; it is not used after release",
        assumptions=["a heap block whose own address is stored into another heap object is not tracked further"])
    run(ck, KINDS, 100)


if __name__ == "__main__":
    check.main(main)
