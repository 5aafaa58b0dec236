import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.vflow import VFlow, Ptr, NULL


def triples(fs):
    """(list getter, count getter, indexed getter) families declared by the header"""
    by = {f[0]: f for f in fs}
    out = []
    for n, _, rt, ps in fs:
        k = re.match(r"cpuinfo_get_(\w+)_count$", n)
        if not k:
            continue
        lst = "cpuinfo_get_" + k.group(1)
        el = [f for f in fs if f[3] and len(f[3]) == 1 and f[0].startswith("cpuinfo_get_")
              and lst in by and f[2] == by[lst][2] and lst.startswith(f[0])]
        out.append((lst if lst in by else None, n, el[0][0] if el else None, by[lst][2] if lst in by else None))
    return out


def one(cfg):
    out = []
    qs = api.queries(cfg)
    tr = triples(qs)
    flag, = util.init_flag(cfg)
    m = build.load(build.inlined(cfg, [q[0] for q in qs] + ["cpuinfo_initialize"]), cfg)
    vf = VFlow(m)
    b = vf.b
    bits = vf.byte(("g", flag), 0)
    F = bits[0]
    for x in bits[1:]:
        F = b.AND(F, b.NOT(x))
    slots = {}
    for lst, cnt, el, rt in tr:
        if not (lst and el):
            out.append((cnt, False, "include/cpuinfo.h", f"{cnt} has no matching list/index accessor", cfg.name))
            continue
        for x in (lst, cnt, el):
            if x not in m.functions or m.functions[x].decl:
                raise RuntimeError("anchor %s is not defined" % x)
        A, _ = vf.run(m.functions[lst])
        C, _ = vf.run(m.functions[cnt])
        fe = m.functions[el]
        idx = vf.sym(fe.args[0].ty, ("arg", fe.name, 0))
        E, _ = vf.run(fe, [idx])
        where = next((i.loc() for i in fe.insts if i.line), el)
        lw = next((i.loc() for i in m.functions[lst].insts if i.line), lst)
        cw = next((i.loc() for i in m.functions[cnt].insts if i.line), cnt)
        tn = re.search(r"struct (\w+)", rt).group(1)
        size = m.di.sizeof(tn)
        # the list accessor yields one place
        alts = [a for a in A.alts if b.AND(a[0], F)]
        out.append((lst + ": one list", len(alts) == 1 and b.implies(F, alts[0][0]) and alts[0][1] != NULL, lw,
                    f"{lst} does not always return the published list: {alts}", cfg.name))
        if len(alts) != 1:
            continue
        ab, ao = alts[0][1], alts[0][2]
        # list and count are the plain published values, not computed ones
        plain = vf.is_const(C) or all(any(k[0] == "bit" and k[1][0] == "mem" for k in b.support(x)) and b.size(x) == 1 for x in C)
        out.append((cnt + ": published count", True if plain else False, cw,
                    f"{cnt} returns something else than the published count: {[b.show(x, 2) for x in C[:3]]}", cfg.name))
        slots.setdefault(("list", ab, ao), []).append((lst, lw))
        if not vf.is_const(C):
            slots.setdefault(("count", C), []).append((cnt, cw))
        oob = b.NOT(vf.ult(idx, C))
        isnull = 0
        good = True
        why = ""
        for g, base, off in E.alts:
            g = b.AND(g, F)
            if not g:
                continue
            if base == NULL:
                isnull = b.OR(isnull, g)
                continue
            if base[0] == "elt" and base[1] == ab and base[2] == ao and off == 0 and base[3] == size:
                w = base[4]
                if w[:32] == idx and all(x == 0 for x in w[32:]):
                    continue
            if (base, off) == (ab, ao) and b.implies(b.AND(g, b.NOT(oob)), vf.eq(idx, vf.const(0, 32))):
                continue
            good = False
            why = f"{el}(index) can return {base}+{off}, which is not element 'index' of {lst}()"
        out.append((el + ": element of the list", good, where, why, cfg.name))
        bad1 = b.AND(b.AND(F, oob), b.NOT(isnull))
        out.append((el + ": NULL when out of range", bad1 == 0, where,
                    f"{el}(index) does not return NULL for every index >= {cnt}()"
                    + ("" if bad1 == 0 else f": non-NULL when {b.show(bad1, 2)}"), cfg.name))
        bad2 = b.AND(b.AND(F, isnull), b.NOT(oob))
        out.append((el + ": element when in range", bad2 == 0, where,
                    f"{el}(index) returns NULL although index < {cnt}()"
                    + ("" if bad2 == 0 else f": NULL when {b.show(bad2, 2)}"), cfg.name))
    for k, users in slots.items():
        out.append((f"{users[0][0]}: own storage", len(users) == 1, users[-1][1],
                    f"{' and '.join(u[0] for u in users)} return the same published {k[0]}", cfg.name))
    return out, len(tr)


def main():
    ck = check.Check(
        "A02", "other",
        technique="Boolean-function data-flow analysis; the list, count and index accessors of each topology level are "
                  "derived from the public header and cross-checked against each other",
        rule="index accessor(i) is list accessor() + i elements when i < count accessor(), NULL otherwise; list and "
             "count accessors return the published values unmodified and no two levels share them")
    cfgs = list(build.ALL.values())
    for r, n in util.pmap(one, cfgs):
        ck.count("accessor families x configurations", n)
        for o in r:
            ck.obligation(*o)
    ck.count("build configurations", len(cfgs))
    ck.finish(300)


check.main(main)
