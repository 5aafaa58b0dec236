import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.bdd import Budget
from vf.ir import Const, Function, Global, Inst
from vf.prov import root
from vf.vflow import VFlow

ONCE = {"pthread_once": (0, 1), "call_once": (0, 1)}
HARMLESS = ("llvm.dbg", "llvm.lifetime", "llvm.assume")


def zero(c):
    return c is None or (isinstance(c, Const) and (c.kind in ("null", "zero") or (c.kind == "int" and c.val == 0)))


def reach(m, fn, skip=()):
    """functions reachable from fn by direct calls"""
    seen, work = {fn.name}, [fn]
    while work:
        f = work.pop()
        for i in f.insts:
            g = i.callee if i.op == "call" else None
            if isinstance(g, Function) and not g.decl and g.name not in seen:
                seen.add(g.name)
                work.append(g)
    return seen


def acquired(bb, succ, flag):
    """the edge is taken only after an acquire load saw the flag set"""
    t = bb.term
    if t.op != "br" or not t.ops:
        return False
    c, want = t.ops[0], True
    while isinstance(c, Inst):
        if c.op == "icmp" and zero(c.ops[1]) and c.pred in ("eq", "ne"):
            if c.pred == "eq":
                want = not want
            c = c.ops[0]
        elif c.op in ("trunc", "zext", "freeze"):
            c = c.ops[0]
        elif c.op == "xor" and isinstance(c.ops[1], Const):
            want = not want
            c = c.ops[0]
        else:
            break
    return isinstance(c, Inst) and c.op == "load" and root(c.ops[0])[0] is flag and c.ordering >= 4 and \
        succ is t.succs[0 if want else 1] and t.succs[0] is not t.succs[1]


def one(cfg):
    out = []
    qs = [q[0] for q in api.queries(cfg)]
    m = build.load(build.inlined(cfg, qs + ["cpuinfo_initialize", "cpuinfo_deinitialize"]), cfg)
    flags = util.init_flag(cfg, m)
    init = m.functions["cpuinfo_initialize"]
    where0 = next((i.loc() for i in init.insts if i.line), "src/init.c")
    out.append(("result is the completion flag", len(flags) == 1, where0,
                f"cpuinfo_initialize() does not return the value of one completion flag: {sorted(flags)}", cfg.name))
    once = [i for f in m.functions.values() for i in f.insts if i.op == "call" and util.callee(i) in ONCE]
    out.append(("detection runs through a once-guard", any(i.bb.fn is init for i in once), where0,
                "cpuinfo_initialize() runs the detection without a once-guard", cfg.name))
    guards, dets = set(), set()
    for i in once:
        gi, fi = ONCE[util.callee(i)]
        g, off, idx = root(i.args[gi])
        d = i.args[fi]
        if not isinstance(g, Global):
            out.append(("once-guard is static", False, i.loc(), "the once-guard is not a static object, so every call can "
                        "run the detection again", cfg.name))
            continue
        guards.add((g.name, off))
        if isinstance(d, Function):
            dets.add(d.name)
        else:
            out.append(("detection function", None, i.loc(), "the detection function is not a constant", cfg.name))
        out.append(("once-guard starts unset", zero(g.init) and not g.decl, i.loc(),
                    f"{g.name} is not statically initialised to the unset state", cfg.name))
        out.append(("once-guard is shared by all threads", not g.tls, i.loc(),
                    f"{g.name} is thread-local: each thread runs the detection again", cfg.name))
        for u in g.users:
            bad = u.op in ("store", "atomicrmw", "cmpxchg") or (u.op == "call" and u not in once
                                                                and not (util.callee(u) or "").startswith(HARMLESS))
            if u.op == "gep":
                bad = any(w.op == "store" and w.ops[1] is u for w in u.users)
            if bad:
                out.append(("once-guard is never reset", False, u.loc(), f"{g.name} is modified outside of the once call",
                            cfg.name))
    out.append(("one once-guard", len(guards) <= 1, where0,
                f"several once-guards {sorted(guards)}: the detection can run several times", cfg.name))
    # who stores the flag / is the detection function reachable in another way?
    fl = next(iter(flags), None)
    det_reach = set()
    for d in dets:
        if not m.functions[d].decl:
            det_reach |= reach(m, m.functions[d])
    nstores = 0
    for f in m.functions.values():
        for i in f.insts:
            if i.op == "store" and root(i.ops[1])[0] is m.globals.get(fl):
                nstores += 1
                out.append((f"flag stored only by the guarded detection", f.name in det_reach, i.loc(),
                            f"the completion flag is written by {f.name}, outside of the guarded detection", cfg.name))
            if i.op == "call" and isinstance(i.callee, Function) and i.callee.name in dets:
                out.append((f"detection only through the guard", False, i.loc(),
                            f"{f.name} calls the detection function directly", cfg.name))
    for d in dets:
        for u in m.functions[d].users:
            if u.op == "call" and (u in once or u.callee is m.functions[d]):
                continue
            out.append(("detection only through the guard", False, u.loc(),
                        f"the address of the detection function is also used here", cfg.name))
    out.append(("flag is set somewhere", nstores > 0, where0, "the completion flag is never set", cfg.name))
    out.append(("flag is shared by all threads", fl is None or not m.globals[fl].tls, where0,
                "the completion flag is thread-local", cfg.name))
    # every return passes through the once call
    stop = {i.bb for i in once if i.bb.fn is init}
    if stop:
        seen, work, bad = {init.entry}, [init.entry], None
        while work:
            bb = work.pop()
            if bb in stop:
                continue
            if bb.term.op == "ret":
                bad = bb.term
                break
            for s in bb.succs:
                if s not in seen and not acquired(bb, s, m.globals.get(fl)):
                    seen.add(s)
                    work.append(s)
        out.append(("no return without the guard", bad is None, bad.loc() if bad else where0,
                    "cpuinfo_initialize() can return without waiting for the detection that another thread is running",
                    cfg.name))
    # the value returned is the flag as it is after the detection
    if fl:
        def hook(vf, i, nm, args, c):
            if nm in ONCE:
                # the detection either leaves the flag alone or sets it
                vf.store1(("g", fl), 0, vf.opaque(("flag after", i.uid), 1) + (0,) * 7, c, 1)
                return vf.sym(i.ty, ("once", i.uid)) if i.ty.kind != "void" else "void"
        vf = VFlow(m, call_hook=hook)
        try:
            r, g = vf.run(init)
            by = vf.byte(("g", fl), 0)
            # a C bool: value 0 or 1
            b = vf.b
            K = 1
            for x in vf.initbyte(("g", fl), 0)[1:]:
                K = b.AND(K, b.NOT(x))
            d = b.AND(K, b.XOR(r[0], by[0]))
            out.append(("returned value", d == 0, where0,
                        f"cpuinfo_initialize() does not return the completion flag as it is after the detection: "
                        f"they differ when {b.show(d, 3) if d else ''}", cfg.name))
        except Budget:
            out.append(("returned value", None, where0, "initialization is too large to be followed", cfg.name))
    # deinitialize keeps everything
    de = m.functions.get("cpuinfo_deinitialize")
    if de is None or de.decl:
        raise RuntimeError("anchor cpuinfo_deinitialize")
    n = 0
    for name in reach(m, de):
        for i in m.functions[name].insts:
            n += 1
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                b = root(i.ops[1] if i.op == "store" else i.ops[0])[0]
                if not (isinstance(b, Inst) and b.op == "alloca"):
                    out.append(("deinitialization keeps the results", False, i.loc(),
                                "cpuinfo_deinitialize() modifies library state", cfg.name))
            if i.op == "call" and util.callee(i) in ("free", "munmap", "pthread_once"):
                out.append(("deinitialization keeps the results", False, i.loc(),
                            f"cpuinfo_deinitialize() calls {util.callee(i)}()", cfg.name))
    out.append(("deinitialization analysed", True, where0, "", cfg.name))
    return out, n + len(once)


def main():
    ck = check.Check(
        "I01", "other",
        technique="use analysis of the once-guard and the detection function over the whole program, path coverage of "
                  "cpuinfo_initialize, Boolean-function data flow of its result",
        rule="the detection function is referenced only by once calls on one static, never reset guard; every return of "
             "cpuinfo_initialize passes the once call and returns the completion flag read afterwards; only the detection "
             "sets the flag; deinitialization has no effect on library state")
    for r, n in util.pmap(one, build.ALL.values()):
        ck.count("instructions inspected", n)
        for o in r:
            ck.obligation(*o)
    ck.count("build configurations", len(build.ALL))
    ck.finish(60)


if __name__ == "__main__":
    check.main(main)
