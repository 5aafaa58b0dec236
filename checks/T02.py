import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.cluster import Groups
from vf.topo import LINK, Topo, advance, links, procs, stores_to, uniq
from vf.util import pmap

CFGS = ("x86_64", "i686", "aarch64", "armv7")
WORD = {"cores": "core", "clusters": "cluster", "packages": "package"}


def groups(t, it, plist):
    """kind -> [(index form, guard, is it a new element?, link value)]"""
    out = {}
    for kind in WORD:
        for x, g, st in links(t, it, kind, plist, LINK[kind]):
            e = t.elem(x)
            if e is None or e[0] != kind or e[3]:
                out[kind] = None
                break
            if t.rel(it, e[2], plist[0][1]) is True:
                new = True
            elif not e[2][1]:
                new = False          # a single object
            else:
                a = advance(t, it, e[2])
                if a is None or a[1] not in (0, 1):
                    out[kind] = None
                    break
                new = a[1] == 1
            out.setdefault(kind, []).append((e[2], g, new, x, e[1]))
    return out


def analyse(name):
    t = Topo(build.LINUX[name])
    s, b = t.s, t.b
    out = []

    def ob(key, ok, where, text):
        out.append((key, ok, where, text if not ok else "", name))

    for it in t.its:
        pr = procs(t, it)
        if pr is None:
            continue
        pl, pf, plist = pr
        gr = groups(t, it, plist)
        if not all(gr.get(k) for k in WORD):
            continue
        # objects refer to the same cluster and package as their processors
        for kind, field, other in (("cores", "cluster", "clusters"), ("cores", "package", "packages"),
                                   ("clusters", "package", "packages")):
            sts = stores_to(t, it, kind, field)
            for idx, g, new, _, l in gr[kind]:
                fa, sz = t.addr(kind, l, idx, field)
                keep = t.unchanged(fa, sz)
                for oidx, og, _, olink, _ in gr[other]:
                    k = b.AND(g, og)
                    for v, h in (t.final(it, fa, sz, k) if k else {}).items():
                        if v == keep and not new:
                            r = True
                        elif v == keep:
                            r = None if t.outside(it, kind, field) else False
                        else:
                            r = True if t.norm(it, v) == t.norm(it, olink) else link_differs(t, it, v, olink)
                        where = sts[-1][0].inst.loc() if sts else it.l.header.term.loc()
                        ob(f"{kind}: {field}", r, where, f"a {WORD[kind]} refers to another {WORD[other]} than its processors")
        # first cores and clusters
        for kind, field, child in (("clusters", "core_start", "cores"), ("packages", "core_start", "cores"),
                                   ("packages", "cluster_start", "clusters")):
            sts = stores_to(t, it, kind, field)
            for idx, g, new, _, l in gr[kind]:
                fa, sz = t.addr(kind, l, idx, field)
                keep = t.unchanged(fa, sz)
                for cidx, cg, cnew, _, _ in gr[child]:
                    k = b.AND(g, cg)
                    if not k or not idx[1] and not sts:
                        continue
                    for v, h in t.final(it, fa, sz, k).items():
                        if new:
                            r = (None if t.outside(it, kind, field) else False) if v == keep else t.rel(it, v, cidx)
                            text = f"the first {WORD[child]} of a new {WORD[kind]} is not the one for which it was created"
                        else:
                            r = True if v == keep else None
                            text = f"the first {WORD[child]} of a {WORD[kind]} changes afterwards"
                        where = sts[-1][0].inst.loc() if sts else it.l.header.term.loc()
                        ob(f"{kind}: {field}", r, where, text)
        # numbers of cores and clusters
        for kind, field, child in (("clusters", "core_count", "cores"), ("packages", "core_count", "cores"),
                                   ("packages", "cluster_count", "clusters")):
            sts = stores_to(t, it, kind, field)
            for st, e in sts:
                for idx, g, new, _, l in gr[kind]:
                    if b.AND(st.guard, g):
                        ob(f"{kind}: {field} element", t.rel(it, e, idx), st.inst.loc(),
                           f"the {field} of another {WORD[kind]} is updated than the processor belongs to")
            decl = any(t.rec(v) for st, _ in sts for v in st.val)
            for idx, g, new, _, l in gr[kind]:
                fa, sz = t.addr(kind, l, idx, field)
                keep = t.unchanged(fa, sz)
                for cidx, cg, cnew, _, _ in gr[child]:
                    k = b.AND(g, cg)
                    if not k or not idx[1] and not sts:
                        continue
                    for v, h in t.final(it, fa, sz, k).items():
                        where = sts[-1][0].inst.loc() if sts else it.l.header.term.loc()
                        text = f"the {field} of a {WORD[kind]} does not follow its {child}"
                        if decl:
                            rc = t.rec(v)
                            r = (rc[2] == "package_processor_count" and t.rel(it, rc[1], pf)) if rc and new else \
                                True if v == keep and not new else False if not v[1] else None
                        elif cnew:
                            r = v == s.add(keep, (1, ())) or new and v == (1, ())
                            if not r:
                                r = None if v == keep and t.outside(it, kind, field) else \
                                    False if not v[1] or not s.add(v, keep, -1)[1] else None
                        elif new:
                            continue        # a new group always begins with a new child
                        else:
                            r = True if v == keep else False if not v[1] or not s.add(v, keep, -1)[1] else None
                        ob(f"{kind}: {field}", r, where, text)
        ids(t, it, gr, pl, pf, ob)
    if t.cfg.arch == "arm":
        Groups(t).run(ob)
    return out


def link_differs(t, it, v, w):
    a, c = t.elem(v), t.elem(w)
    if a is None or c is None:
        return False if v == (0, ()) else None
    if a[0] != c[0] or a[1] == c[1] and a[3] != c[3]:
        return False
    return t.rel(it, a[2], c[2]) if a[1] == c[1] else None


def ids(t, it, gr, pl, pf, ob):
    s, b = t.s, t.b
    single = all(not idx[1] for idx, *_ in gr["packages"])
    for what, kind, child, parent in (("smt_id", "processors", "processors", "cores"), ("core_id", "cores", "cores", "packages"),
                                      ("cluster_id", "clusters", "clusters", "packages")):
        sts = stores_to(t, it, kind, what)
        if not sts:
            if not any(t.outside(j, kind, what) for j in t.its):
                ob(f"{kind}: {what}", False, it.l.header.term.loc(), f"{what} is never set")
            continue
        where = sts[-1][0].inst.loc()
        v0 = b.OR(0, 0)
        for _, g, *_ in gr["cores"]:
            v0 = b.OR(v0, g)
        for cidx, cg, cnew, _, l in (gr[kind] if kind in gr else [(pf, v0, True, None, pl)]):
            fa, sz = t.addr(kind, l, cidx, what)
            keep = t.unchanged(fa, sz)
            for pidx, pg, pnew, _, _ in gr[parent]:
                k = b.AND(cg, pg)
                for v, h in (t.final(it, fa, sz, k) if k else {}).items():
                    if not cnew:
                        r = True if v == keep else None
                    elif parent == "packages" and single:
                        r = t.rel(it, v, cidx)
                    elif pnew:
                        r = v == (0, ()) if not v[1] else t.rel(it, v, (0, ()))
                    else:
                        r = follows(t, it, v, h)
                    ob(f"{kind}: {what}", r, where, f"{what} does not count the {kind} within their {parent[:-1]}")
                    # the next one continues from this number
                    if cnew and len(v[1]) <= 1 and not (parent == "packages" and single):
                        for c in counters_of(t, it, sts):
                            for f, g2 in it.nextof[c].items():
                                kk = b.AND(b.AND(h, k), g2)
                                if kk:
                                    ob(f"{kind}: {what} continues", True if f == v else t.rel(it, f, v), where,
                                       f"{what} of the next element does not continue from this one")


def counters_of(t, it, sts):
    out = set()
    for st, _ in sts:
        for v in st.val:
            if len(v[1]) == 1 and v[1][0][1] == 1 and v[1][0][0] in it.nextof:
                out.add(v[1][0][0])
    return out


def follows(t, it, v, h):
    """the value is the one of the previous element plus one"""
    if len(v[1]) == 1 and v[1][0][1] == 1:
        c = v[1][0][0]
        if c in it.nextof:
            return v[0] == 1
        return None
    return False if not v[1] else None


def main():
    ck = check.Check(
        "T02", "other",
        technique="loop summarisation with guarded linear forms: inductive step of the loops that fill the lists",
        rule="in every iteration cores, clusters and packages refer to each other as the processor does; first and number of "
             "cores and clusters change exactly when a new one is created; identifiers restart with a new parent and grow by one",
        assumptions=["processor records are sorted with the valid ones first; counters do not wrap"])
    for r in pmap(analyse, CFGS):
        for o in uniq(r):
            ck.obligation(*o)
    ck.finish(40)


if __name__ == "__main__":
    check.main(main)
