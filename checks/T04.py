import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import arm_roles
from vf import build, check
from vf.ir import Const, Function, Inst
from vf.prov import number_of_some, origins
from vf.util import callee, pmap, strip
from vf.vflow import VFlow, Ptr

CFGS = ("x86_64", "i686", "aarch64", "armv7")
ROOT = {"x86": "cpuinfo_x86_linux_init", "arm": "cpuinfo_arm_linux_init"}
REC = {"x86": "cpuinfo_x86_linux_processor", "arm": "cpuinfo_arm_linux_processor"}
KEYS = {"x86": ["flags", "apic_id", "linux_id"],
        "arm": ["flags", "midr", "max_frequency", "package_leader_id", "system_processor_id"]}


def analyse(name):
    cfg = build.LINUX[name]
    root = ROOT[cfg.arch]
    m = build.load(build.inlined(cfg, [root], post="function(sroa,simplifycfg,early-cse)"), cfg)
    if root not in m.functions:
        raise RuntimeError("anchor function %s not found" % root)
    out = []
    for i in m.functions[root].insts:
        if i.op == "call" and callee(i) == "qsort":
            out.append(whole(i, name))
            fn = next((a for a in i.args if isinstance(a, Function)), None)
            if fn is None:
                out.append(("comparison function", None, i.loc(), "comparison function not known", name))
                continue
            out += judge(name, cfg, m, fn, i)
    if not out:
        out.append(("sorting", None, root, "no sort found", name))
    return out


def whole(site, name):
    """all the records are sorted"""
    n = strip(site.args[1])
    sizes = {strip(o.args[0]) for o in origins(site.args[0]) if isinstance(o, Inst) and callee(o) == "calloc"}
    ok = True if sizes == {n} else False if sizes and number_of_some(n) else None
    return "all records are sorted", ok, site.loc(), "only as many records are sorted as are usable, wherever these are", name


def judge(name, cfg, m, fn, site):
    vf = VFlow(m)
    vf.MAXSUP = 1000
    b = vf.b
    size = m.di.sizeof(REC[cfg.arch])
    fields = m.di.bytefields(REC[cfg.arch])
    where = next((i.loc() for i in fn.insts if i.line), site.loc())
    valid = build.macro(cfg, "linux/api.h", "CPUINFO_LINUX_FLAG_VALID")
    order = [f for f in KEYS[cfg.arch] if f in fields] + [f for f in fields if f not in KEYS[cfg.arch]]
    # variables: the three records interleaved, most significant bits first
    val = {}
    for f in order:
        o, sz = fields[f]
        for k in reversed(range(8 * sz)):
            for r in "ABC":
                val.setdefault((r, f), {})[k] = b.atom(("bit", (r, f), k))
    W = {k: tuple(v[i] for i in range(len(v))) for k, v in val.items()}
    for n, r in enumerate("AB"):
        mem = {}
        for f in order:
            o, sz = fields[f]
            for k in range(sz):
                mem[o + k] = W[r, f][8 * k:8 * k + 8]
        vf.mem[("rec", r)] = mem
    res = vf.run(fn, [Ptr([(1, ("rec", r), 0)]) for r in "AB"])
    w = res[0]
    if not isinstance(w, tuple) or len(w) != 32:
        return [("comparison function", None, where, "result not recognised", name)]
    lt = w[31]
    eq = vf.eq(w, vf.const(0, 32))
    gt = b.AND(b.NOT(lt), b.NOT(eq))
    vix = {}

    def pure(k):
        return k[0] == "bit" and isinstance(k[1], tuple) and k[1][0] in "ABC" and len(k[1]) == 2

    def ren(f, mp):
        sub = {}
        for (r, fld), bits in W.items():
            if r in mp:
                for x, y in zip(bits, W[mp[r], fld]):
                    sub[b.var[x]] = y
        return b.compose(f, sub)
    out = []
    n = site.args[2]
    out.append(("order: record size", n.val == size if isinstance(n, Const) and n.kind == "int" else None, site.loc(),
                "the size of a record passed to the sort is not the size of a record", name))

    def ob(key, bad, text):
        """bad: inputs for which the requirement fails"""
        ok, wit = vf.decide(bad, pure)
        if ok is False:
            text += "; e.g. " + example(wit)
        out.append((f"order: {key}", ok, where, "" if ok else text, name))

    def same(r, s, *fs):
        c = 1
        for f in fs:
            c = b.AND(c, vf.eq(W[r, f], W[s, f]))
        return c

    def isvalid(r):
        c = 1
        for k in range(32):
            if valid >> k & 1:
                c = b.AND(c, W[r, "flags"][k])
        return c
    lt_bc, lt_ac = ren(lt, {"A": "B", "B": "C"}), ren(lt, {"B": "C"})
    eq_bc, eq_ac = ren(eq, {"A": "B", "B": "C"}), ren(eq, {"B": "C"})
    swap = {"A": "B", "B": "A"}
    ob("reflexive", b.NOT(ren(eq, {"B": "A"})), "a record does not compare equal to itself")
    ob("antisymmetric", b.OR(b.XOR(ren(lt, swap), gt), b.XOR(ren(eq, swap), eq)), "the order depends on the order of the arguments")
    ob("transitive", b.AND(b.AND(lt, lt_bc), b.NOT(lt_ac)), "the comparison is not transitive")
    ob("equivalence", b.AND(b.AND(eq, eq_bc), b.NOT(eq_ac)), "equality of the comparison is not transitive")
    if valid is None:
        out.append(("order: usable processors first", None, where, "flag of usable processors not known", name))
        return out
    va, vb, vc = isvalid("A"), isvalid("B"), isvalid("C")
    ob("usable processors first", b.AND(b.AND(va, b.NOT(vb)), b.NOT(lt)), "a usable processor is not sorted before unusable ones")
    both = b.AND(va, vb)
    if cfg.arch == "x86":
        less = vf.ult(W["A", "apic_id"], W["B", "apic_id"])
        ob("by APIC id", b.AND(b.AND(both, less), b.NOT(lt)), "usable processors are not sorted by APIC id")
    else:
        grp = ("midr", "max_frequency", "package_leader_id")
        mates = b.AND(same("A", "C", *grp), b.AND(va, b.AND(vb, vc)))
        between = b.AND(b.AND(lt, lt_bc), lt_ac)
        ob("clusters stay together", b.AND(b.AND(mates, between), b.NOT(same("A", "B", "package_leader_id"))),
           "a processor of another cluster is sorted between two processors of one cluster")
        less = vf.ult(W["A", "system_processor_id"], W["B", "system_processor_id"])
        ob("by CPU number in a cluster", b.AND(b.AND(b.AND(both, same("A", "B", *grp)), less), b.NOT(lt)),
           "processors of one cluster are not sorted by their number, so the cluster's first processor is not its leader")
        fless = vf.ult(W["B", "max_frequency"], W["A", "max_frequency"])
        bits = 64 if name == "aarch64" else 32
        ra, rb = roles(vf, W["A", "midr"], bits), roles(vf, W["B", "midr"], bits)
        higher = equal = 0
        for x, gx in ra.items():
            for y, gy in rb.items():
                if x and y and x > y:
                    higher = b.OR(higher, b.AND(gx, gy))
                elif x and x == y:
                    equal = b.OR(equal, b.AND(gx, gy))
        ob("performance cores first", b.AND(b.AND(both, higher), b.NOT(lt)),
           "a core with a performance role is not sorted before one with a lesser role")
        ob("faster cores first", b.AND(b.AND(b.AND(both, equal), fless), b.NOT(lt)),
           "of two cores with the same role, the faster one is not sorted first")
    return out


def roles(vf, midr, bits):
    """role -> condition on the MIDR; 0: cores that do not exist with this register width"""
    b = vf.b
    out, rest = {}, 1
    for (impl, part), (role, only) in arm_roles.ROLE.items():
        c = b.AND(vf.eq(midr[24:32], vf.const(ord(impl), 8)), vf.eq(midr[4:16], vf.const(part, 12)))
        r = role if only in (None, bits) else 0
        out[r] = b.OR(out.get(r, 0), c)
        rest = b.AND(rest, b.NOT(c))
    out[arm_roles.DEFAULT] = rest
    return out


def example(w):
    by = {}
    for k, v in w.items():
        if v:
            by[k[1]] = by.get(k[1], 0) | 1 << k[2]
    return ", ".join(f"{r}.{f}={v:#x}" for (r, f), v in sorted(by.items())) or "all fields zero"


def main():
    ck = check.Check(
        "T04", "other",
        technique="Boolean-function data-flow analysis of the comparison functions used for sorting; algebraic laws as identities",
        rule="the comparison passed to the sort is a strict weak order; usable processors come first; processors of one group "
             "are adjacent and in order",
        assumptions=["processors of one cluster share MIDR and maximum frequency, which the detection copies from the leader"])
    for r in pmap(analyse, CFGS):
        for o in r:
            ck.obligation(*o)
    ck.finish(24)


if __name__ == "__main__":
    check.main(main)
