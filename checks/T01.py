import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.cluster import Groups
from vf.ir import Global
from vf.prov import origins, root
from vf.topo import LINK, Topo, advance, counts_published, cpumax, links, procs, published, stores_to, uniq
from vf.util import pmap

CFGS = ("x86_64", "i686", "aarch64", "armv7")
WORD = {"cores": "core", "clusters": "cluster", "packages": "package", "l1i_caches": "L1 instruction cache",
        "l1d_caches": "L1 data cache", "l2_caches": "L2 cache", "l3_caches": "L3 cache", "l4_caches": "L4 cache"}


def analyse(name):
    cfg = build.LINUX[name]
    t = Topo(cfg)
    s, b = t.s, t.b
    out = []

    def ob(key, ok, where, text):
        out.append((key, ok, where, text if not ok else "", name))

    for it in t.its:
        pr = procs(t, it)
        if pr is None:
            continue
        pl, pf, plist = pr
        for kind, field in LINK.items():
            if field not in t.fields["processors"]:
                continue
            w = WORD[kind]
            ls = links(t, it, kind, plist, field)
            starts = stores_to(t, it, kind, "processor_start")
            counts = stores_to(t, it, kind, "processor_count")
            n = 0
            declared = False
            for x, g, st in ls:
                if x == (0, ()):
                    continue                # no such cache
                e = t.elem(x)
                where = st.inst.loc()
                if e is None:
                    k = s.base(x)[0]
                    ob(f"{kind}: link", None, where, "target of the link not recognised")
                    continue
                if e[0] != kind or e[3] != 0:
                    ob(f"{kind}: link", False, where, f"a processor's {w} link does not point to an element of the list of "
                       f"these objects")
                    continue
                if not starts and not counts:
                    continue
                n += 1
                idx = e[2]
                if any(t.elem(st2.addr)[1] != e[1] for st2, _ in starts + counts):
                    ob(f"{kind}: link", None, where, "elements are reached in different ways")
                    continue
                one(t, it, kind, w, field, idx, g, pf, starts, counts, ob, where)
            if (starts or counts) and not n:
                ob(f"{kind}: link", None, it.l.header.term.loc(), "ranges are filled in without links")
        packages(t, ob)
    if cfg.arch == "arm":
        Groups(t).run(ob)
    return out


def one(t, it, kind, w, field, idx, g, pf, starts, counts, ob, where):
    s, b = t.s, t.b
    l = next((t.elem(st.addr)[1] for st, _ in starts + counts))
    adv = advance(t, it, idx)
    each = t.rel(it, idx, pf) is True
    if each:
        new = True                      # one element per processor
    elif idx == (0, ()):
        # one element shared by all processors
        for st, e in counts:
            for v, h in st.val.items():
                if b.AND(b.AND(g, st.guard), h):
                    r = False if t.rec(v) or not v[1] else published(t, v)
                    ob(f"{kind}: shared", r, st.inst.loc(), f"all processors are linked to one {w}, which does not count all "
                       f"of them")
        return
    elif adv is None:
        bad = idx[1] and all(t.cpu_number(x) for x, _ in idx[1])
        ob(f"{kind}: index", False if bad else None, where, f"processors are linked to the {w} at the operating system's number "
           f"instead of their own" if bad else "index of the linked element not recognised")
        return
    else:
        c, d = adv
        if d not in (0, 1):
            ob(f"{kind}: index", False, where, f"processors are linked to {w} elements {d} positions after the previous one")
            return
        new = d == 1
        # the next iteration continues from this element
        nx = it.nextof[c]
        gg = b.AND(g, it.again())
        for f, h in nx.items():
            k = b.AND(gg, h)
            if k:
                prev = -1 - it.initof[c][0]
                r = t.rel(it, s.add(f, (prev, ())), idx)
                ob(f"{kind}: index", r, where, f"after a processor was linked to a {w}, the next one continues from a "
                   f"different element")
    # ranges are written to the linked element only
    for what, sts in (("first processor", starts), ("processor count", counts)):
        for st, e in sts:
            k = b.AND(g, st.guard)
            if k:
                r = t.rel(it, e, idx)
                ob(f"{kind}: {what} element", r, st.inst.loc(), f"the {what} of one {w} is updated while the processor is "
                   f"linked to another")
    fa, sz = t.addr(kind, l, idx, "processor_start")
    fs = t.final(it, fa, sz, g)
    keep = t.unchanged(fa, sz)
    if starts or counts:
        for v, h in fs.items():
            sw = (starts or counts)[-1][0].inst.loc()
            if new:
                r = None if v == keep and t.outside(it, kind, "processor_start") else False if v == keep else t.rel(it, v, pf)
                ob(f"{kind}: first processor", r, sw, f"the first processor of a new {w} is not the processor for which it was "
                   f"created")
            else:
                r = True if v == keep else t.rel(it, v, pf) is None and None
                ob(f"{kind}: first processor", r, sw, f"the first processor of a {w} changes when a further processor is "
                   f"added")
    fa, sz = t.addr(kind, l, idx, "processor_count")
    fc = t.final(it, fa, sz, g)
    keep = t.unchanged(fa, sz)
    if starts or counts:
        decl = any(t.rec(v) for st, _ in counts for v in st.val)
        other = any(v[1] and s.add(v, t.unchanged(st.addr, st.size), -1)[1] for st, _ in counts for v in st.val)
        for v, h in fc.items():
            cw = (counts or starts)[-1][0].inst.loc()
            if new:
                rc = t.rec(v)
                if rc and each:
                    r = False
                elif rc:
                    r = (rc[2] == "package_processor_count") and t.rel(it, rc[1], pf)
                elif v == keep:
                    r = None if t.outside(it, kind, "processor_count") else False
                elif not v[1]:
                    r = v[0] == 1
                elif v == s.add(keep, (1, ())):
                    r = True             # lists start zeroed
                else:
                    r = published(t, v)
                ob(f"{kind}: processor count", r, cw, f"the processor count of a new {w} does not start with its first "
                   f"processor")
            else:
                if v == s.add(keep, (1, ())):
                    r = not decl
                elif v == keep:
                    r = True if decl else None if other or t.outside(it, kind, "processor_count") else False
                else:
                    r = False if not v[1] or not s.add(v, keep, -1)[1] else None
                ob(f"{kind}: processor count", r, cw, f"the processor count of a {w} does not grow by one with each further "
                   f"processor")


def packages(t, ob):
    """a single static package: its totals are the published totals"""
    pub = counts_published(t)
    for i in t.M.det.insts:
        if i.op != "store":
            continue
        p, off, idx = root(i.ops[1])
        if not isinstance(p, Global) or t.kindof.get(p) != "packages" or idx:
            continue
        n = t.fieldname("packages", off)
        for fld, k in (("processor_count", "processors"), ("core_count", "cores"), ("cluster_count", "clusters")):
            if n != fld:
                continue
            v = t.s.outside(i.ops[0])
            if any(o in cpumax(t) for o in origins(i.ops[0])):
                r = False                  # the number of CPUs that the system may have
            elif len(v) != 1:
                r = None
            else:
                v = next(iter(v))
                others = {x for kk, xs in pub.items() if kk != k for x in xs}
                r = True if v in pub.get(k, ()) else False if v in others or not v[1] else None
            ob(f"packages: {fld}", r, i.loc(), f"the package's number of {k} is not the published number of {k}")


def main():
    ck = check.Check(
        "T01", "other",
        technique="loop summarisation with guarded linear forms: inductive step of the loops that fill the lists",
        rule="in every iteration the linked element, its first processor and its processor count change together: a new element "
             "starts at the current processor with count 1, a continued one keeps its start and grows by one; on ARM the leader of a "
             "cluster is its lowest usable processor and is told the number of usable processors that have it as leader",
        assumptions=["processor records are sorted with the valid ones first; counters do not wrap",
                     "a list of siblings names the processor it belongs to"])
    for r in pmap(analyse, CFGS):
        for o in uniq(r):
            ck.obligation(*o)
    ck.finish(100)


if __name__ == "__main__":
    check.main(main)
