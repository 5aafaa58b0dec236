import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import api, build, check, util
from vf.vflow import VFlow, Ptr, NULL

NR_GETCPU = {"x86_64": 309, "i686": 318, "aarch64": 168, "armv7": 345, "riscv64": 168}


def origin(vf, key):
    """the memory locations a word was read from"""
    if isinstance(key, tuple) and key[0] == "w":
        at = {k[1] for k in vf.b.support(*key[1]) if isinstance(k, tuple) and k[0] == "bit"}
        locs = sorted({(k[1][1], k[2]) for k in at if isinstance(k, tuple) and k[0] == "mem" and len(k[1]) > 1})
        return tuple(locs) or str(key)
    return str(key)


def case(cfg, m, nr, flag, q, rt, fn, where, answers, bounds, maps, out):
    sysc = []
    loads = []
    signed = []

    def hook(vf, i, nm, args, c):
        rc = vf.const(0 if answers else -1, i.ty.bits) if nm in ("syscall", "getcpu", "sched_getcpu") else None
        cpu = vf.opaque("cpu" if answers else "nocpu", 32)
        if nm == "syscall":
            k = vf.cval(args[0]) if vf.is_const(args[0]) else None
            sysc.append((i, k, c))
            if k == nr:
                if isinstance(args[1], Ptr):
                    vf.store(args[1], cpu, 1, 4)
                return rc
            return vf.sym(i.ty, ("syscall", i.uid))
        if nm == "getcpu":
            sysc.append((i, nr, c))
            vf.store(args[0], cpu, 1, 4)
            return rc
        if nm == "sched_getcpu":
            sysc.append((i, nr, c))
            signed.append(cpu[31])
            return cpu if answers else rc
        return None

    def lhook(vf, base, off, ty, inst, loads=loads):
        # an access through a pointer that was itself read from memory, at a variable index
        if base[0] == "elt":
            loads.append((inst, vf.cur, base, off, ty))
        return None
    vf = VFlow(m, call_hook=hook, load_hook=lhook)
    b = vf.b
    bits = vf.byte(("g", flag), 0)
    F = bits[0]
    for x in bits[1:]:
        F = b.AND(F, b.NOT(x))
    R, g = vf.run(fn)
    loads = list(loads)
    cpu = vf.opaque("cpu", 32)
    for x in signed:
        F = b.AND(F, b.NOT(x))
    if answers:
        for i, k, c in sysc:
            out.append((q + ": asks the kernel for the CPU", k == nr, i.loc(),
                        f"system call {k} instead of getcpu ({nr})", cfg.name))
    # bounds the accessor compares the CPU number with
    cand = [k for k in b.names if isinstance(k, tuple) and k[0] == "ult" and
            (k[1] == "cpu" or isinstance(k[1], tuple) and k[1][0] == "w" and k[1][1][:32] == cpu and not any(k[1][1][32:]))]
    ptr = rt.endswith("*")
    dflt = vf.sym(fn.args[0].ty, ("arg", fn.name, 0)) if fn.args else None
    tables = {(base[1], base[2]) for _, _, base, _, _ in loads}
    nomap = 0
    for k in b.names:
        if isinstance(k, tuple) and k[0] == "isnull" and (any(k[1] == tb for tb, _ in tables) or not loads and k[1][0] == "ld"):
            nomap = b.atom(k)

    def same(cond, x, y):
        return all(b.implies(cond, b.NOT(b.XOR(p, q))) for p, q in zip(x, y))

    def fallback(cond):
        if ptr:
            isnull = 0
            for gg, base, off in R.alts:
                if base == NULL:
                    isnull = b.OR(isnull, gg)
            out.append((q + ": NULL when unknown", b.implies(cond, isnull), where,
                        f"{q} does not return NULL whenever the CPU number is unavailable or beyond the table", cfg.name))
            return
        want = dflt if dflt is not None else vf.const(0, len(R))
        out.append((q + ": fallback", same(cond, R, want), where,
                    f"{q} does not return {'the given default' if dflt is not None else '0'} whenever the CPU number "
                    "is unavailable or beyond the table", cfg.name))
        if nomap:
            z = vf.eq(R, vf.const(0, len(R)))
            out.append((q + ": no table", b.implies(b.AND(F, nomap), z), where,
                        f"{q} does not return 0 when there is no table (one microarchitecture)", cfg.name))

    if not answers:
        for inst, c, base, off, ty in loads:
            out.append((q + ": lookup without CPU number", b.AND(F, c) == 0, inst.loc() if inst else where,
                        f"{q} reads a per-CPU table without having checked that the kernel reported a CPU number", cfg.name))
        if sysc:
            fallback(b.AND(F, b.NOT(nomap)))
        return len(sysc)
    # every table lookup is dominated by the bound
    inr = 0
    for inst, c, base, off, ty in loads:
        w = base[4]
        iscpu = w[:32] == cpu and all(x == 0 for x in w[32:])
        tb = base[1]
        bnd = [k for k in cand if b.implies(b.AND(F, c), b.atom(k))]
        good = iscpu and bool(bnd) and bool(sysc)
        out.append((q + ": bounded lookup", good, inst.loc() if inst else where,
                    f"{q} reads a per-CPU table " + (
                        "at an index that is not the CPU number reported by the kernel" if not iscpu else
                        "without checking the CPU number against the size of the table"), cfg.name))
        for k in bnd:
            bounds.setdefault(origin(vf, k[2]), []).append((q, where))
            inr = b.atom(k)
        maps.setdefault((tb, base[2]), []).append((q, where))
        if tb[0] != "ld":
            out.append((q + ": table", None, where, f"table base {tb}", cfg.name))
    if not loads:
        # no per-CPU information in this configuration: the answer is constant
        if ptr:
            out.append((q, False if cfg.os in ("linux", "android") else True, where,
                        f"{q} never consults a per-CPU table", cfg.name))
        else:
            z = b.implies(F, vf.eq(R, vf.const(0, len(R))))
            out.append((q + ": single microarchitecture", z, where,
                        f"{q} does not return 0 where all cores have the same microarchitecture", cfg.name))
        return len(sysc)
    tb = loads[0][2][1]
    hit = b.AND(F, b.AND(inr, b.NOT(nomap)))
    fallback(b.AND(b.AND(F, b.NOT(nomap)), b.NOT(inr)))
    if ptr:
        isnull = 0
        for gg, base, off in R.alts:
            if base == NULL:
                isnull = b.OR(isnull, gg)
            elif not (base[0] == "ld" and base[1] == "elt" and base[2][1] == tb and off == 0):
                if b.AND(gg, F):
                    out.append((q + ": entry of the table", False, where, f"{q} can return {base}", cfg.name))
        out.append((q + ": entry when known", b.AND(hit, isnull) == 0, where,
                    f"{q} returns NULL although the CPU number is within the table", cfg.name))
    else:
        elt = vf.load1(loads[0][2], loads[0][3], loads[0][4], None)
        out.append((q + ": entry when known", same(hit, R, elt), where,
                    f"{q} does not return the table entry of the current CPU", cfg.name))
        for inst, c, base, off, ty in loads:
            out.append((q + ": table checked", nomap != 0 and b.AND(b.AND(F, c), nomap) == 0,
                        inst.loc() if inst else where,
                        f"{q} reads the per-CPU table although it may be absent", cfg.name))
    return len(sysc)


def one(cfg):
    out = []
    qs = [q for q in api.queries(cfg) if "_current_" in q[0]]
    if len(qs) < 4:
        raise RuntimeError("the accessors of the current processor were not found in the header")
    flag, = util.init_flag(cfg)
    m = build.load(build.inlined(cfg, [q[0] for q in qs] + ["cpuinfo_initialize"]), cfg)
    nr = NR_GETCPU[cfg.triple.split("-")[0]]
    bounds = {}
    maps = {}
    nsys = 0
    for q, _, rt, params in qs:
        fn = m.functions[q]
        where = next((i.loc() for i in fn.insts if i.line), q)
        # the kernel answers, and the kernel fails to answer
        for answers in (True, False):
            nsys += case(cfg, m, nr, flag, q, rt, fn, where, answers, bounds, maps, out)
    out.append(("one bound for all tables", len(bounds) <= 1, "src/api.c",
                f"the accessors compare the CPU number with different bounds: {sorted(map(str, bounds))}", cfg.name))
    for k, us in maps.items():
        kinds = {("uarch" if "uarch" in u[0] else u[0]) for u in us}
        out.append((f"table {k[0][1:2]} used by one kind", len(kinds) == 1, us[-1][1],
                    f"{sorted(kinds)} read the same per-CPU table", cfg.name))
    return out, len(qs), nsys


def main():
    ck = check.Check(
        "A03", "other",
        technique="Boolean-function data-flow analysis of the current-CPU accessors with an abstract getcpu system call",
        rule="every read of a per-CPU table happens only when getcpu succeeded and the CPU number is below the published "
             "table size; otherwise the result is NULL, 0 or the caller's default",
        assumptions=["getcpu returns 0 or -1",
                     "the published bound is the allocated size of the tables (property I05)"])
    cfgs = list(build.ALL.values())
    for r, n, k in util.pmap(one, cfgs):
        ck.count("accessors x configurations", n)
        ck.count("getcpu call sites x configurations", k)
        for o in r:
            ck.obligation(*o)
    ck.finish(80)


check.main(main)
