import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.ir import Const, Function, Inst

NR_GETCPU = {"x86_64": 309, "i686": 318, "aarch64": 168, "armv7": 345, "riscv64": 168}
PURE = {"strlen", "memcmp", "strcmp", "strncmp", "memchr", "strnlen", "bcmp", "__errno_location"}


def roots(v):
    """objects a pointer can be based on"""
    seen, work, out = set(), [v], []
    while work:
        x = work.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Inst) and x.op in ("gep", "bitcast", "addrspacecast", "freeze"):
            work.append(x.ops[0])
        elif isinstance(x, Inst) and x.op == "phi":
            work += x.ops
        elif isinstance(x, Inst) and x.op == "select":
            work += x.ops[1:]
        else:
            out.append(x)
    return out


def local(v):
    return all(isinstance(x, Inst) and x.op == "alloca" or isinstance(x, Const) and x.kind in ("null", "undef")
               for x in roots(v))


def one(cfg):
    out = []
    qs = [q[0] for q in api.queries(cfg)] + ["vf_" + a[0] for a in api.inline_accessors(cfg)]
    m = build.load(build.inlined(cfg, qs, extra_sources=[api.wrappers(cfg)]), cfg)
    nr = NR_GETCPU[cfg.triple.split("-")[0]]
    ninst = 0

    effects = {}

    def effect(fn, stack=()):
        """-> list of (instruction, what) effects on the returning paths of fn"""
        if fn.name in effects:
            return effects[fn.name]
        res = []
        good = util.reaches_return(fn)
        for bb in fn.blocks:
            if bb not in good:
                continue
            for i in bb.insts:
                if i.op == "store" and not local(i.ops[1]):
                    res.append((i, "writes memory that outlives the call"))
                elif i.op in ("cmpxchg", "atomicrmw"):
                    res.append((i, "modifies shared memory"))
                elif i.op == "call":
                    f = i.callee
                    if isinstance(f, Const) and f.kind == "asm":
                        if "cpuid" not in f.val and "xgetbv" not in f.val and f.val.strip():
                            pass
                        continue
                    if not isinstance(f, Function):
                        res.append((i, "calls through a pointer"))
                    elif f.name.startswith("llvm."):
                        if f.name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")) and not local(i.args[0]):
                            res.append((i, "writes memory that outlives the call"))
                    elif f.name in PURE:
                        pass
                    elif f.name == "syscall":
                        a = i.args
                        if not (isinstance(a[0], Const) and a[0].kind == "int" and a[0].val == nr):
                            res.append((i, f"performs a system call other than getcpu"))
                        elif not all(local(x) for x in a[1:] if x.ty.kind == "ptr"):
                            res.append((i, "lets the kernel write shared memory"))
                    elif f.name in ("getcpu", "sched_getcpu"):
                        if not all(local(x) for x in i.args if x.ty.kind == "ptr"):
                            res.append((i, "lets the kernel write shared memory"))
                    elif not f.decl and f.name not in stack:
                        for j, w in effect(f, stack + (fn.name,)):
                            res.append((j, w))
                    elif f.decl:
                        res.append((i, f"calls {f.name}()"))
        effects[fn.name] = res
        return res

    for q in qs:
        fn = m.functions.get(q)
        if fn is None or fn.decl:
            raise RuntimeError("anchor %s is not defined" % q)
        ninst += len(fn.insts)
        e = effect(fn)
        nm = q[3:] if q.startswith("vf_") else q
        if not e:
            out.append((nm, True, "", "", cfg.name))
        for i, w in e:
            out.append((f"{nm}: {w}", False, i.loc(), f"{nm} {w}", cfg.name))
    return out, len(qs), ninst


def main():
    ck = check.Check(
        "A04", "other",
        technique="interprocedural effect analysis of all public queries and inline accessors",
        rule="on every path to a normal return a query only reads: no store outside its own frame, no allocation, locking, "
             "I/O or system call other than getcpu, no call through a pointer",
        assumptions=["the fatal path of a query called before initialization may log before it aborts"])
    cfgs = [c.with_level(n) for c in build.ALL.values() for n in (0, 2, 5)]
    for r, n, k in util.pmap(one, cfgs):
        ck.count("entry points x configurations", n)
        ck.count("IR instructions", k)
        for o in r:
            ck.obligation(*o)
    ck.finish(1000)


check.main(main)
