import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check, own, publish, util
from vf.ir import Const, Function, Global, Inst
from vf.prov import root, origins

QUIET = ("llvm.dbg", "llvm.lifetime", "llvm.assume", "cpuinfo_log", "cpuinfo_vlog", "free", "close")


def local(p):
    b = root(p)[0]
    return all(isinstance(root(o)[0], Inst) and root(o)[0].op == "alloca" for o in origins(b))


def writes(i, flag):
    """the instruction may write memory that other threads can reach"""
    if i.op in ("store", "cmpxchg", "atomicrmw"):
        p = i.ops[1] if i.op == "store" else i.ops[0]
        return root(p)[0] is not flag and not local(p)
    if i.op == "call":
        nm = util.callee(i)
        if nm is None:
            return not (isinstance(i.callee, Const) and i.callee.kind == "asm")
        if nm.startswith(QUIET):
            return False
        if nm.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            return not local(i.args[0])
        if nm.startswith("llvm."):
            return False
        if not i.callee.decl:
            return any(writes(j, flag) for j in i.callee.insts)
        return any(a.ty.kind == "ptr" and not local(a) and not (isinstance(root(a)[0], Global) and root(a)[0].const)
                   for a in i.args)
    return False


def one(name):
    cfg = build.ALL[name]
    M = publish.Model(cfg)
    fn, flag = M.det, M.flag
    out = []
    # the flag only ever becomes true
    for s in M.flagstores:
        v = s.ops[0] if s.op == "store" else None
        good = isinstance(v, Const) and v.kind == "int" and v.val & 1 == 1
        out.append(("flag becomes true", good, s.loc(), "the completion flag is set to something else than true", name))
    out.append(("flag starts false", flag.init is None or flag.init.kind in ("zero", "null") or
                (flag.init.kind == "int" and flag.init.val == 0), fn.name, "the completion flag is initially set", name))
    # barrier
    IN = {fn.entry: False}
    work = [fn.entry]
    state = {}

    def flow(bb, st):
        for i in bb.insts:
            if i in M.flagstores:
                state[i] = st
            if i.op == "fence" and i.ordering >= 5 or i.op in ("cmpxchg", "atomicrmw") and i.ordering >= 5:
                st = True
            elif writes(i, flag):
                st = False
        return st
    while work:
        bb = work.pop()
        st = flow(bb, IN[bb])
        for s in bb.succs:
            if s not in IN:
                IN[s] = st
                work.append(s)
            elif IN[s] and not st:
                IN[s] = False
                work.append(s)
    for s in M.flagstores:
        good = state.get(s, True) or s.ordering >= 5
        out.append(("results before flag", good, s.loc(),
                    "the completion flag can become visible to other threads before the results: no release barrier "
                    "lies between the last result and the flag", name))
    # every slot that a query reads was stored
    fl = M.reaching()
    absent = set()
    for kind, ls, cs in M.kind_slots():
        if kind in M.absent():
            absent |= {ls, cs}
    nslots = 0
    written = {root(i.ops[1])[0].name for f in M.m.functions.values() for i in f.insts
               if i.op == "store" and isinstance(root(i.ops[1])[0], Global)}
    for s, st in fl.items():
        for n, rs in sorted(M.slots.items()):
            for off, size in sorted(rs):
                if (n, off) in absent:
                    continue
                if cfg.arch == "riscv" and "max_cache_size" in n:
                    continue
                nslots += 1
                miss = [k for k in range(off, off + size) if None in st[(n, k)]]
                # padding of a structure that is handed out as a whole
                if size > 8 and len(miss) < size:
                    miss = [k for k in miss if not _padding(M, n, k)]
                out.append((f"stored before flag: {n}+{off}", not miss, s.loc(),
                            f"{n} (byte {miss[0] if miss else 0}), which queries return, is not stored on every path that "
                            f"completes initialization", name))
    # nothing changes afterwards
    pub = set()
    for f in M.m.functions.values():
        for i in f.insts:
            if i.op == "store" and isinstance(root(i.ops[1])[0], Global) and root(i.ops[1])[0].name in M.slots:
                pub |= {o for o in origins(i.ops[0]) if isinstance(o, Inst) and util.callee(o) in own.HEAP}
    for s in M.flagstores:
        seen, work = set(), [(s.bb, s.pos + 1)]
        nafter = 0
        while work:
            bb, k = work.pop()
            for i in bb.insts[k:]:
                nafter += 1
                tgt = None
                if i.op == "store" and i not in M.flagstores:
                    tgt = i.ops[1]
                elif i.op == "call" and (util.callee(i) or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    tgt = i.args[0]
                if tgt is None:
                    continue
                b = root(tgt)[0]
                for o in origins(b):
                    o = root(o)[0]
                    bad = isinstance(o, Global) and o.name in M.slots or o in pub or \
                        isinstance(o, Inst) and o.op == "load" and isinstance(root(o.ops[0])[0], Global) and \
                        root(o.ops[0])[0].name in M.slots
                    if bad:
                        out.append(("nothing changes after the flag", False, i.loc(),
                                    "a published result is modified after initialization was declared complete", name))
            for x in bb.succs:
                if x not in seen:
                    seen.add(x)
                    work.append((x, 0))
        out.append(("analysed after flag", True, s.loc(), "", name))
    # nothing is published without its storage, and the list of processors was read
    lists = []                  # RISC-V: attempts to read the list of present processors
    for site in own.sites(fn):
        hits = []

        def hook(ts, i, status, al):
            if i in M.flagstores and status == own.N:
                hits.append(i)
        ts = own.Typestate(fn, site, flag_hook=hook)
        must = bool(ts.published_at)
        if not must and own.ACQ[util.callee(site)] == "close":
            p = root(site.args[0])[0]
            txt = None
            if isinstance(p, Global) and p.init is not None and p.init.kind == "bytes":
                txt = p.init.val.rstrip(b"\0") if isinstance(p.init.val, bytes) else p.init.val
            must = txt in (b"/proc/cpuinfo", "/proc/cpuinfo")
            if name.startswith("riscv") and txt in (b"/sys/devices/system/cpu/present", "/sys/devices/system/cpu/present"):
                lists.append((site, not hits))
        if must:
            out.append((f"success only with {util.callee(site)} in {site.file}", not hits, site.loc(),
                        f"initialization completes although {util.callee(site)}() at {site.loc()} failed", name))
    if lists:
        out.append(("success only with the list of processors", any(ok for _, ok in lists), lists[-1][0].loc(),
                    "initialization completes although the list of present processors could not be read", name))
    return out, {"result slots": nslots, "blocks": len(fn.blocks), "acquisition sites": len(own.sites(fn))}


def _padding(M, n, k):
    g = M.m.globals[n]
    nm = getattr(g.valty, "name", None)
    if not nm:
        return False
    try:
        by = M.m.di.bytefields(nm.split(".", 1)[1])
    except Exception:
        return False
    return k not in by


def main():
    ck = check.Check(
        "I02", "other",
        technique="must-store and barrier data-flow analysis over the inlined detection function, typestate of published "
                  "allocations at the point where the completion flag is set",
        rule="every storage cell that a query reads is stored on every path before the flag; a release barrier separates "
             "them; no result changes after the flag; no path with a failed published allocation or unreadable processor "
             "list reaches the flag",
        assumptions=["cache lists are not detected on RISC-V and L4 not on ARM; these stay empty"])
    for r, c in util.pmap(one, build.ALL):
        for k, v in c.items():
            ck.count(k, v)
        for o in r:
            ck.obligation(*o)
    ck.finish(150)


if __name__ == "__main__":
    check.main(main)
