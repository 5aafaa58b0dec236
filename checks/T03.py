import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.I05 import path_avoiding, zero_edges
from vf import build, check, own
from vf.ir import Global, Inst
from vf.prov import number_of_some, origins, root
from vf.topo import LINK, Topo, advance, counts_published, links, procs, stores_to, uniq
from vf.util import callee, pmap, strip

CFGS = ("x86_64", "i686", "aarch64", "armv7")
GEOM = ("size", "associativity", "sets", "partitions", "line_size", "flags")
OVER = {"size": "size", "associativity": "assoc", "sets": "sets", "line_size": "line_length"}
MAPS = {"cpuinfo_linux_cpu_to_processor_map": "processors", "cpuinfo_linux_cpu_to_core_map": "cores",
        "cpuinfo_linux_cpu_to_uarch_index_map": "uarchs"}
LEVELS = ("l1i", "l1d", "l2", "l3")


class Src:
    """where the values stored to the lists come from"""

    def __init__(self, t, it):
        self.t, self.it = t, it
        self.det = {}
        name = {"x86": "cpuinfo_x86_init_processor", "arm": "cpuinfo_arm_decode_cache"}[t.cfg.arch]
        for i in t.M.det.insts:
            if i.op == "call" and getattr(i.callee, "name", None) == name:
                if t.cfg.arch == "x86":
                    f = t.m.di.bytefields("cpuinfo_x86_processor")
                    for o in origins(i.args[0]):
                        self.det[o] = {off: n for n, (off, sz) in f.items()}
                elif i.bb in it.l.blocks:
                    f = t.m.di.bytefields("cpuinfo_cache")
                    for lv, a in zip(LEVELS, i.args[-4:]):
                        for o in origins(a):
                            if isinstance(o, Inst) and o.op == "alloca":
                                self.det[o] = {off: f"cache.{lv}.{n}" for n, (off, sz) in f.items()}

    def name(self, f):
        """('det', field) for results of the detection, ('rec', index, field) for processor records, ('const', n), None"""
        if not f[1]:
            return "const", f[0]
        r = self.t.rec(f)
        if r:
            return "rec", r[1], r[2]
        if f[0] or len(f[1]) != 1 or f[1][0][1] != 1:
            return None
        k = self.t.s.leafs[f[1][0][0]]
        if k[0] != "mem":
            return None
        l, off = self.t.s.base(k[1])
        v = self.t.s.lval.get(l)
        if v is None or off[1]:
            return None
        o = origins(v)
        if len(o) == 1:
            d = self.det.get(next(iter(o)))
            if d and off[0] in d:
                return "det", d[off[0]]
        return None


def analyse(name):
    t = Topo(build.LINUX[name])
    s, b = t.s, t.b
    x86 = t.cfg.arch == "x86"
    out = []

    def ob(key, ok, where, text):
        out.append((key, ok, where, text if not ok else "", name))

    ident = "cpuid" if x86 else "midr"
    allmaps = {}
    for it in t.its:
        src = Src(t, it)
        pr = procs(t, it)
        if pr is None:
            uarchs(t, it, src, ob)
            continue
        pl, pf, plist = pr

        def judge(v, want, keep, new, kind, field):
            """want: accepted (source, field) names"""
            if v == keep:
                return True if not new else None if t.outside(it, kind, field) else False
            n = src.name(v)
            if n is None:
                return False if not x86 and same_for_all(t, v) else None
            if n[0] == "rec":
                return t.rel(it, n[1], pf) if ("rec", n[2]) in want else False
            return n in want

        # identification
        for kind in ("cores", "clusters") + tuple(k for k in LINK if k.endswith("caches")):
            if LINK[kind] not in t.fields["processors"]:
                continue
            fields = GEOM if kind.endswith("caches") else ("vendor", "uarch", ident)
            sts = {f: stores_to(t, it, kind, f) for f in fields}
            if not any(sts.values()):
                continue
            for x, g, st in links(t, it, kind, plist, LINK[kind]):
                e = t.elem(x)
                if e is None or e[0] != kind or e[3]:
                    continue
                each = t.rel(it, e[2], pf) is True
                a = advance(t, it, e[2])
                if not each and a is None:
                    continue
                new = each or a[1] == 1
                for f in fields:
                    lv = kind[:-7] if kind.endswith("caches") else None
                    if lv:
                        want = {("det", f"cache.{lv}.{f}")}
                        if lv[:2] == "l1" and not x86:
                            want |= {("rec", f"proc_cpuinfo_cache.{lv[-1]}_{OVER.get(f)}")}
                            if f == "flags":
                                want |= {("const", 0)}
                        if f == "partitions" and not x86:
                            want |= {("const", 1)}
                    else:
                        want = {("det", f)} if x86 else {("rec", f)}
                    fa, sz = t.addr(kind, e[1], e[2], f)
                    keep = t.unchanged(fa, sz)
                    for v, h in t.final(it, fa, sz, g).items():
                        if lv and lv[:2] == "l1" and not x86 and s.leafs[v[1][0][0]][0] == "mem" if len(v[1]) == 1 and not v[0] else False:
                            k = s.leafs[v[1][0][0]]
                            if k[1] == fa and len(k) > 3:
                                continue       # written by the decoder, see below
                        where = sts[f][-1][0].inst.loc() if sts[f] else st.inst.loc()
                        ob(f"{kind}: {f}", judge(v, want, keep, new, kind, f), where,
                           f"the {f} of a {kind[:-1].replace('_', ' ')} is not the detected one")
        # operating system identifiers
        for f, want in (("linux_id", ("linux_id", "system_processor_id")), ("apic_id", ("apic_id",))):
            if f not in t.fields["processors"]:
                continue
            for st, e in stores_to(t, it, "processors", f):
                for v in st.val:
                    n = src.name(v)
                    r = (False if part_of(t, src, v, want) else None) if n is None else \
                        n[0] == "rec" and n[2] in want and t.rel(it, n[1], e)
                    ob(f"processors: {f}", r, st.inst.loc(), f"the {f} of a processor is not the detected one")
        maps(t, it, src, pl, pf, plist, ob, allmaps)
        if not x86:
            decoder(t, it, src, pf, ob)
    if allmaps:
        for g, kind in MAPS.items():
            if g in t.m.globals and not (x86 and kind == "uarchs"):
                ob(f"{g}: filled", bool(allmaps.get(kind)), t.its[0].l.header.term.loc(),
                   f"no entry of the per-CPU table of {kind} is ever filled in")
    for i, n in t.number_stores():
        v, n = strip(i.ops[0]), strip(n)
        ob("record: number", True if v == n else False if number_of_some(v) and not number_of_some(n) else None, i.loc(),
           "the number of a processor is not its position in the operating system's list")
    single_uarch(t, ob)
    table_present(t, ob)
    return out


def same_for_all(t, v):
    """a value that does not depend on the processor"""
    return all(t.s.leafs[x][0] == "out" for x, _ in v[1])


def part_of(t, src, v, want):
    """some bits of a field of a record"""
    if v[0] or len(v[1]) != 1 or v[1][0][1] != 1:
        return False
    k = t.s.leafs[v[1][0][0]]
    if k[0] != "op" or k[1] not in ("and", "lshr", "trunc"):
        return False
    n = src.name(k[2])
    return n is not None and n[0] == "rec" and n[2] in want and \
        (k[1] == "trunc" or not k[3][1] and (k[3][0] & 0xFFFFFFFF != 0xFFFFFFFF if k[1] == "and" else k[3][0] != 0))


def map_of(t, leaf):
    v = t.s.lval.get(leaf)
    if v is None:
        return None
    if not hasattr(t, "_maps"):
        t._maps = {}
        for i in t.M.det.insts:
            if i.op == "store" and isinstance(i.ops[1], Global) and i.ops[1].name in MAPS:
                for o in origins(i.ops[0]):
                    if isinstance(o, Inst):
                        t._maps[o] = MAPS[i.ops[1].name]
    ks = {t._maps[o] for o in origins(v) if o in t._maps}
    return next(iter(ks)) if len(ks) == 1 else None


def maps(t, it, src, pl, pf, plist, ob, seen):
    s, b = t.s, t.b
    core = {}
    for x, g, st in links(t, it, "cores", plist, LINK["cores"]):
        core[x] = b.OR(core.get(x, 0), g)
    for st in it.stores:
        if st.size is None:
            continue
        l, off = s.base(st.addr)
        kind = map_of(t, l) if l is not None else None
        if kind is None:
            continue
        seen[kind] = True
        w = t.fields["processors"]["core"][1] if kind != "uarchs" else 4
        r = None
        if len(off[1]) == 1 and off[1][0][1] == w:
            n = src.name((0, ((off[1][0][0], 1),)))
            if off[0]:
                r = False
            elif n and n[0] == "rec":
                r = n[2] in ("linux_id", "system_processor_id") and t.rel(it, n[1], pf)
            elif off[1][0][0] in it.counters or (0, ((off[1][0][0], 1),)) == pf:
                r = False                   # position in the list instead of the CPU number
        ob(f"per-CPU table of {kind}: entry", r, st.inst.loc(), f"the per-CPU table of {kind} is not indexed by the CPU's number")
        for v, h in st.val.items():
            if kind == "uarchs":
                n = src.name(v)
                r = (False if same_for_all(t, v) or all(x in it.counters for x, _ in v[1]) else None) if n is None else \
                    (n[0] == "rec" and n[2] == "uarch_index" and t.rel(it, n[1], pf))
            else:
                e = t.elem(v)
                if e is None:
                    r = None
                elif e[0] != kind or e[3]:
                    r = False
                elif kind == "processors":
                    r = t.rel(it, e[2], pf)
                else:
                    r = True
                    for x, g in core.items():
                        if b.AND(b.AND(g, h), st.guard):
                            q = t.rel(it, t.elem(x)[2], e[2]) if t.elem(x) else None
                            r = False if q is False or r is False else None if q is None else r
            ob(f"per-CPU table of {kind}: value", r, st.inst.loc(), f"the per-CPU table of {kind} refers to a different element than "
               f"the one of that CPU")


def table_present(t, ob):
    """the table of microarchitectures is absent only where there are no two of them to tell apart"""
    M, fn = t.M, t.M.det
    cs = next((k[2] for k in M.kind_slots() if k[0] == "uarchs"), None)
    for fl, st in M.reaching().items():
        for (g, off), r in st.items():
            if MAPS.get(g) != "uarchs" or off:
                continue
            c = st.get(cs, ()) if isinstance(cs, tuple) else ()
            if None in r or len(c) != 1 or None in c or any(x.op != "store" for x in r | c):
                continue
            o = {x for s in r for x in origins(s.ops[0])}
            sites = [x for x in o if isinstance(x, Inst) and callee(x) in own.HEAP]
            where = sites[0].loc() if sites else next(iter(r)).loc()
            if len(sites) != len([x for x in o if isinstance(x, Inst)]):
                continue
            C = next(iter(c)).ops[0]
            ok = not path_avoiding(fn, fl, sites, zero_edges(fn, C, 1))
            if not ok and path_avoiding(fn, fl, sites, zero_edges(fn, C, 64)):
                ok = None if sites else False
            ob("per-CPU table of uarchs: present", ok, where, "there is no per-CPU table of microarchitectures although there can be several")


def decoder(t, it, src, pf, ob):
    """arguments of the cache decoder"""
    want = {"uarch": "uarch", "midr": "midr", "cluster_cores": "package_processor_count", "arch_version": "architecture_version"}
    for i in t.M.det.insts:
        if i.op != "call" or getattr(i.callee, "name", None) != "cpuinfo_arm_decode_cache" or i.bb not in it.l.blocks:
            continue
        for pos, f in ((0, "uarch"), (1, "package_processor_count"), (2, "midr"), (5, "architecture_version")):
            try:
                vs = it.get(i.args[pos])
            except KeyError:
                continue
            for v in vs:
                n = src.name(v)
                r = None if n is None else n[0] == "rec" and n[2] == f and t.rel(it, n[1], pf)
                ob(f"cache decoding: {f}", r, i.loc(), f"caches are decoded from another {f} than the processor's")
        for lv, a in zip(LEVELS, i.args[-4:]):
            for v in it.get(a):
                e = t.elem(v)
                if e:
                    r = e[0] == lv + "_caches" and e[3] == 0 and t.rel(it, e[2], pf)
                    ob(f"cache decoding: {lv}", r, i.loc(), f"the decoded {lv} cache is stored to another element")


def uarchs(t, it, src, ob):
    s, b = t.s, t.b
    sts = [(st, t.elem(st.addr)) for st in it.stores if st.size is not None]
    sts = [(st, e) for st, e in sts if e and e[0] == "uarchs"]
    seen = set()
    for st, e in sts:
        f = t.fieldname("uarchs", e[3])
        if f in ("uarch", "midr", "cpuid"):
            for v in st.val:
                n = src.name(v)
                r = None if n is None else n[0] == "rec" and n[2] == f
                if r:
                    r = True if len(n[1][1]) == 1 and n[1][0] == 0 else None
                ob(f"uarchs: {f}", r, st.inst.loc(), f"the {f} of a microarchitecture is not the one of its processors")
        elif f in ("processor_count", "core_count") and (f, e[2]) not in seen:
            seen.add((f, e[2]))
            fa, sz = t.addr("uarchs", e[1], e[2], f)
            keep = t.unchanged(fa, sz)
            for v, h in t.final(it, fa, sz, st.guard).items():
                r = True if v == s.add(keep, (1, ())) or v == (1, ()) else False if not v[1] or not s.add(v, keep, -1)[1] else None
                ob(f"uarchs: {f}", r, st.inst.loc(), f"the {f} of a microarchitecture does not grow by one with each processor")
    if sts:
        got = {t.fieldname("uarchs", e[3]) for st, e in sts}
        for f in ("uarch", "midr", "processor_count", "core_count"):
            if f not in got and not t.outside(it, "uarchs", f):
                ob(f"uarchs: {f}", False, sts[0][0].inst.loc(), f"the {f} of microarchitectures is never set")


def single_uarch(t, ob):
    """x86: one static description of the microarchitecture"""
    pub = counts_published(t)
    for i in t.M.det.insts:
        if i.op != "store":
            continue
        p, off, idx = root(i.ops[1])
        if not isinstance(p, Global) or t.kindof.get(p) != "uarchs" or idx:
            continue
        f = t.fieldname("uarchs", off)
        if f in ("uarch", "cpuid"):
            o = origins(i.ops[0])
            r = None
            if len(o) == 1 and isinstance(next(iter(o)), Inst) and next(iter(o)).op == "load":
                q, off2, ix = root(next(iter(o)).ops[0])
                if not ix and isinstance(q, Inst) and q.op == "alloca":
                    r = off2 == t.m.di.bytefields("cpuinfo_x86_processor")[f][0]
            ob(f"uarchs: {f}", r, i.loc(), f"the {f} of the microarchitecture is not the detected one")
        elif f in ("processor_count", "core_count"):
            k = f[:-6] + "s"
            v = t.s.outside(i.ops[0])
            v = next(iter(v)) if len(v) == 1 else None
            others = {x for kk, xs in pub.items() if kk != k for x in xs}
            r = True if v in pub.get(k, ()) else False if v in others else None
            ob(f"uarchs: {f}", r, i.loc(), f"the {f} of the microarchitecture is not the published number of {k}")


def main():
    ck = check.Check(
        "T03", "other",
        technique="loop summarisation with guarded linear forms: sources of the values stored to the lists and per-CPU tables",
        rule="identification and geometry stored for an object come from the detection results of the same processor and level; "
             "per-CPU tables are indexed by the operating system's number and refer to that processor's objects",
        assumptions=["processor records are sorted with the valid ones first"])
    for r in pmap(analyse, CFGS):
        for o in uniq(r):
            ck.obligation(*o)
    ck.finish(100)


if __name__ == "__main__":
    check.main(main)
