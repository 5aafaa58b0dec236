import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, own, publish, util
from vf.ir import Arg, Const, Function, Global, Inst
from vf.prov import root, origins
from vf.util import strip, callee


def parts(v):
    """v as (base SSA value or None, constant): v == base + constant"""
    c = 0
    v = strip(v)
    while isinstance(v, Inst) and v.op in ("add", "sub") and isinstance(v.ops[1], Const):
        k = v.ops[1].val
        if k >> (v.ty.bits - 1):
            k -= 1 << v.ty.bits
        c += k if v.op == "add" else -k
        v = strip(v.ops[0])
    if isinstance(v, Const) and v.kind == "int":
        return None, v.val + c
    return v, c


def enough(n, c):
    """n >= c?  True, False or None (unknown)"""
    (nb, nk), (cb, ck) = parts(n), parts(c)
    if nb is cb:
        return nk >= ck
    if cb is None and ck == 0:
        return True
    # max(a, b) and the like
    x = strip(n)
    if isinstance(x, Inst) and x.op == "call" and (callee(x) or "").startswith("llvm.umax"):
        return True if any(enough(a, c) for a in x.args[:2]) else None
    if isinstance(x, Inst) and x.op == "select":
        cmp = x.ops[0]
        if isinstance(cmp, Inst) and cmp.op == "icmp" and cmp.pred in ("ugt", "uge") and \
                {id(strip(o)) for o in cmp.ops} == {id(strip(o)) for o in x.ops[1:]}:
            if any(enough(a, c) for a in x.ops[1:]):
                return True
    for v in (nb, cb):
        if isinstance(v, Inst) and v.op == "load" or isinstance(v, Inst) and v.op == "call":
            return None
    return False


def count_of(site, esize):
    """number of elements of size esize that the allocation provides: value or None"""
    nm = callee(site)
    if nm == "calloc":
        n, s = site.args
        if isinstance(n, Const) and not isinstance(s, Const):
            n, s = s, n
        if isinstance(s, Const):
            return n, s.val
        return None, None
    if nm == "malloc":
        x = strip(site.args[0])
        if isinstance(x, Const):
            return x, 1
        if isinstance(x, Inst) and x.op == "mul" and isinstance(x.ops[1], Const):
            return x.ops[0], x.ops[1].val
        if isinstance(x, Inst) and x.op == "shl" and isinstance(x.ops[1], Const):
            return x.ops[0], 1 << x.ops[1].val
    return None, None


def zero_edges(fn, c, top=0):
    """edges on which c <= top is known"""
    out = set()
    cb, ck = parts(c)
    if cb is None:
        return out
    for bb in fn.blocks:
        t = bb.term
        if t.op == "br" and t.ops and isinstance(t.ops[0], Inst) and t.ops[0].op == "icmp":
            i = t.ops[0]
            x, y, pr = strip(i.ops[0]), i.ops[1], i.pred
            if x is not cb or ck or not isinstance(y, Const) or y.kind != "int":
                continue
            if pr == "eq" and y.val <= top or pr == "ult" and y.val <= top + 1 or pr == "ule" and y.val <= top:
                out.add((bb, t.succs[0]))
            if pr == "ne" and y.val <= top or pr == "uge" and y.val <= top + 1 or pr == "ugt" and y.val <= top:
                out.add((bb, t.succs[1]))
        elif t.op == "switch" and strip(t.ops[0]) is cb and not ck:
            for v, b in t.cases:
                if v <= top and all(b is not b2 for v2, b2 in t.cases if v2 > top) and b is not t.succs[0]:
                    out.add((bb, b))
    return out


def rpo(fn):
    order, seen = [], set()
    st = [(fn.entry, iter(fn.entry.succs))]
    seen.add(fn.entry)
    while st:
        bb, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            order.append(bb)
            st.pop()
    order.reverse()
    return {b: k for k, b in enumerate(order)}


def coupled(fn, q, p):
    """after the loop that computes both: q != 0 implies p != 0.
    Both start at zero, and in each iteration either q keeps its value or becomes zero, or p is incremented."""
    q, p = strip(q), strip(p)
    if not (isinstance(q, Inst) and isinstance(p, Inst) and q.op == "phi" and p.op == "phi" and q.bb is p.bb):
        return False
    num = rpo(fn)
    for (qv, b1), (pv, b2) in zip(sorted(q.inc, key=lambda x: x[1].index), sorted(p.inc, key=lambda x: x[1].index)):
        if b1 is not b2:
            return False
        if num[b1] < num[q.bb]:
            if not all(isinstance(x, Const) and x.kind == "int" and x.val == 0 for x in (qv, pv)):
                return False
            continue
        seen, work = set(), [(qv, pv)]
        while work:
            a, b = work.pop()
            if (id(a), id(b)) in seen:
                continue
            seen.add((id(a), id(b)))
            if len(seen) > 5000:
                return False

            def rank(x, h):
                return num.get(x.bb, -1) * 100000 + x.pos if isinstance(x, Inst) and x.op in ("phi", "select") and x is not h \
                    else -1
            ra, rb = rank(a, q), rank(b, p)
            if ra < 0 and rb < 0:
                base, k = parts(b)
                if base is p and k >= 1 or base is p and k == 0 and (a is q or isinstance(a, Const) and a.val == 0):
                    continue
                return False
            if ra >= 0 and rb >= 0 and a.op == b.op == "phi" and a.bb is b.bb:
                for x, bx in a.inc:
                    for y, by in b.inc:
                        if bx is by:
                            work.append((x, y))
            elif ra >= 0 and rb >= 0 and a.op == b.op == "select" and a.ops[0] is b.ops[0]:
                work += [(a.ops[1], b.ops[1]), (a.ops[2], b.ops[2])]
            elif ra > rb:
                for x in (a.ops if a.op == "phi" else a.ops[1:]):
                    work.append((x, b))
            else:
                for y in (b.ops if b.op == "phi" else b.ops[1:]):
                    work.append((a, y))
    return True


def tested(fn):
    """SSA values that are compared with zero in branches"""
    out = []
    for bb in fn.blocks:
        t = bb.term
        if t.op == "br" and t.ops and isinstance(t.ops[0], Inst) and t.ops[0].op == "icmp":
            i = t.ops[0]
            if isinstance(i.ops[1], Const) and i.ops[1].kind == "int" and i.ops[1].val in (0, 1):
                out.append(strip(i.ops[0]))
    return list(dict.fromkeys(out))


def path_avoiding(fn, target, sites, dead):
    """can the target be reached without passing one of the sites or dead edges?"""
    stop = {s.bb for s in sites}
    seen, work = {fn.entry}, [fn.entry]
    while work:
        bb = work.pop()
        if bb in stop:
            continue
        if bb is target.bb:
            return True
        for s in bb.succs:
            if (bb, s) not in dead and s not in seen:
                seen.add(s)
                work.append(s)
    return False


def one(name):
    cfg = build.ALL[name]
    M = publish.Model(cfg)
    m, fn = M.m, M.det
    out = []
    fam = []
    for kind, ls, cs in M.kind_slots():
        if kind in M.absent():
            continue
        if ls is None or cs is None:
            out.append((kind, None, "src/api.c", "accessors not resolved", name))
            continue
        sn = {"uarchs": "cpuinfo_uarch_info"}.get(kind)
        if sn is None:
            sn = "cpuinfo_cache" if kind.endswith("_caches") else "cpuinfo_" + kind[:-1]
        if kind == "clusters":
            sn = "cpuinfo_cluster"
        fam.append((kind, ls, cs, m.di.sizeof(sn), False))
    # per-CPU tables: pointer slots that no list accessor returns, bounded by the slot the CPU number is compared with
    lists = {f[1] for f in fam}
    counts = {f[2] for f in fam}
    for q in M.qs:
        if "_current_" not in q:
            continue
        f = m.functions[q]
        tabs, bnd, tested0 = {}, set(), set()
        for i in f.insts:
            if i.op == "load" and i.ty.kind == "ptr":
                b, off, idx = root(i.ops[0])
                if isinstance(b, Global) and not idx:
                    if any(u.op == "icmp" and any(isinstance(o, Const) and o.kind == "null" for o in u.ops) for u in i.users):
                        tested0.add((b.name, off))
                    for g in i.users:
                        if g.op == "gep" and g.idx:
                            tabs[(b.name, off)] = sum(k for _, k in g.idx)
            if i.op == "icmp" and i.pred in ("ult", "uge", "ugt", "ule"):
                for o in i.ops:
                    o = strip(o)
                    if isinstance(o, Inst) and o.op == "load" and isinstance(root(o.ops[0])[0], Global):
                        b, off, idx = root(o.ops[0])
                        bnd.add((b.name, off))
        if len(bnd) == 1:
            for t, sz in tabs.items():
                if t not in lists:
                    fam.append((f"table of {q}", t, next(iter(bnd)), sz, t in tested0))
    fl = M.reaching()
    for s, st in fl.items():
        for kind, ls, cs, esize, nullok in fam:
            where = s.loc()
            if isinstance(cs, int):
                C = Const()
                C.kind, C.val, C.op, C.ops = "int", cs, None, []
                cst = None
            else:
                r = st.get(cs, frozenset())
                if len(r) != 1 or None in r or next(iter(r)).op != "store":
                    out.append((kind, None, where, f"count {cs} has several reaching stores", name))
                    continue
                cst = next(iter(r))
                C = cst.ops[0]
                where = cst.loc()
            if ls[0] == "object":
                sz = ls[1].valty.size
                cb, ck = parts(C)
                good = cb is None and ck * esize <= sz
                out.append((f"{kind}: storage", good, where,
                            f"the number of {kind} is {'larger than' if cb is None else 'not'} the {sz // esize} object(s) "
                            "that exist", name))
                continue
            r = st.get(ls, frozenset())
            if not r or None in r or any(x.op != "store" for x in r):
                out.append((kind, None, where, f"list {ls} has unclear reaching stores", name))
                continue
            sites, objs, null, odd = [], [], False, []
            for x in r:
                for o in origins(x.ops[0]):
                    b, off, idx = root(o)
                    if isinstance(o, Const) and o.kind == "null":
                        null = True
                    elif isinstance(o, Inst) and callee(o) in own.HEAP:
                        sites.append(o)
                    elif isinstance(b, Global) and not idx:
                        objs.append((b, off))
                    else:
                        odd.append(o)
            if odd:
                out.append((kind, None, where, f"list {ls} has other origins", name))
                continue
            for a in sites:
                n, sz = count_of(a, esize)
                if n is None:
                    out.append((f"{kind}: size", None, a.loc(), "size of the allocation not resolved", name))
                    continue
                out.append((f"{kind}: element size", sz >= esize, a.loc(),
                            f"the array of {kind} is allocated with {sz} bytes per element, the elements have {esize}",
                            name))
                e = enough(n, C)
                out.append((f"{kind}: as many as counted", e, a.loc(),
                            f"the published number of {kind} ({where}) is not the number of elements allocated for them "
                            f"at {a.loc()}", name))
            for b, off in objs:
                cb, ck = parts(C)
                out.append((f"{kind}: storage", cb is None and ck * esize <= b.valty.size - off, where,
                            f"the published number of {kind} is not bounded by the {b.valty.size // esize} object(s) in "
                            f"{b.name}", name))
            if not nullok and sites and not objs:
                dead = zero_edges(fn, C)
                p = path_avoiding(fn, s, sites, dead)
                if p:
                    # a related count that is zero only if this one is
                    for v in tested(fn):
                        if coupled(fn, C, v):
                            dead |= zero_edges(fn, v)
                    p = path_avoiding(fn, s, sites, dead)
                out.append((f"{kind}: allocated unless empty", not p, sites[0].loc(),
                            f"the array of {kind} can stay unallocated although its published count is not known to be zero",
                            name))
    return out, {"families": len(fam)}


def main():
    ck = check.Check(
        "I05", "other",
        technique="value-numbered SSA comparison of the published counts with the sizes of the published allocations, "
                  "path search for completion without the allocation",
        rule="for each list and per-CPU table: every block that can be published as the list provides at least 'count' "
             "elements of the declared type, and the list is unallocated only where the count was tested to be zero")
    for r, c in util.pmap(one, build.ALL):
        for k, v in c.items():
            ck.count(k, v)
        for o in r:
            ck.obligation(*o)
    ck.finish(120)


if __name__ == "__main__":
    check.main(main)
