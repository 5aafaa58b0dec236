import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.ir import Const
from vf.util import pmap
from vf.bdd import Budget
from vf.vflow import Agg, Ptr, VFlow
from vf.x86 import UNROLL, X86
from vf.x86 import pure as reported

CFGS = ("x86_64", "i686")
ROOT = "cpuinfo_x86_detect_cache"
TABLE = "cpuinfo_x86_decode_cache_descriptor"
DEPTH = 3                       # entries of each leaf
# eax, ebx, ecx, edx of the entries at the head of a longer list
HEAD = ((0x121, 0x1c0003f, 63, 0), (0x122, 0x1c0003f, 63, 0), (0x143, 0x3c0003f, 1023, 0), (0x163, 0x3c0003f, 4095, 6),
        (0x183, 0x3c0003f, 8191, 2), (0x121, 0x1c0003f, 127, 0), (0x122, 0x1c0003f, 127, 0), (0x143, 0x1c0003f, 2047, 2))
LONG = (2, 5, 8)                # entries before the two arbitrary ones
LEVELS = ("l1i", "l1d", "l2", "l3", "l4")
FIELDS = ("size", "associativity", "sets", "partitions", "line_size", "flags", "apic_bits")


def pure(k):
    return k[0] == "bit" and isinstance(k[1], tuple) and k[1][0] in ("arg", "mem", "cpuid")


class Spec:
    """what the manuals say about one entry of leaf 4 or leaf 0x8000001D"""

    def __init__(self, vf, flag):
        self.vf, self.b, self.flag = vf, vf.b, flag

    def inc(self, w):
        w = tuple(w) + (0,) * (32 - len(w))
        out, c = [], 1
        for x in w:
            out.append(self.b.XOR(x, c))
            c = self.b.AND(x, c)
        return tuple(out)

    def log2(self, w):
        """number of bits that hold the values 0..w, for w = n - 1"""
        r = self.vf.const(0, 32)
        for k, x in enumerate(w):
            r = self.vf.w_ite(x, self.vf.const(k + 1, 32), r)
        return r

    def entry(self, regs, state, active, intel):
        vf, b = self.vf, self.b
        eax, ebx, ecx, edx = regs
        typ, level = eax[:5], eax[5:8]
        sets, line = self.inc(ecx), self.inc(ebx[:12])
        parts, assoc = self.inc(ebx[12:22]), self.inc(ebx[22:])
        v = {"sets": sets, "line_size": line, "partitions": parts, "associativity": assoc,
             "size": vf.mul(vf.mul(sets, line), vf.mul(parts, assoc)), "apic_bits": self.log2(eax[14:26])}
        kinds = {k: vf.eq(typ, vf.const(n, 5)) for k, n in (("data", 1), ("code", 2), ("unified", 3))}
        fl = vf.w_ite(edx[1], vf.const(self.flag["INCLUSIVE"], 32), vf.const(0, 32))
        if intel:
            fl = vf.w_ite(edx[2], tuple(b.OR(p, q) for p, q in zip(fl, vf.const(self.flag["COMPLEX_INDEXING"], 32))), fl)
        uni = tuple(b.OR(p, q) for p, q in zip(fl, vf.const(self.flag["UNIFIED"], 32)))
        v["flags"] = vf.w_ite(kinds["unified"], uni, fl)
        for lv in LEVELS:
            if lv == "l4" and not intel:
                continue
            n = int(lv[1])
            g = b.OR(kinds["unified"], kinds["code" if lv == "l1i" else "data"])
            g = b.AND(active, b.AND(g, vf.eq(level, vf.const(n, 3))))
            for f in FIELDS:
                state[f"{lv}.{f}"] = vf.w_ite(g, v[f], state[f"{lv}.{f}"])
        if intel:
            state["cores"] = vf.w_ite(active, self.log2(eax[26:]), state["cores"])


def analyse(job):
    """the fields of the caches; with a leaf and n, for a list of that leaf with n fixed entries at its head"""
    name, only, n = job
    cfg = build.LINUX[name]
    entries = DEPTH if only is None else n + 2
    have = build.load(build.raw(cfg), cfg).functions
    path = build.inlined(cfg, [ROOT], noinline=[TABLE] if TABLE in have else [], post=UNROLL)
    m = build.load(build.peeled(path, entries + 1), cfg)
    if ROOT not in m.functions:
        return [("caches", None, "src/x86/cache/init.c", "function not found", name)]
    fn = m.functions[ROOT]
    kinds = "".join({"int": "i", "ptr": "p"}.get(a.ty.kind, "?") for a in fn.args)
    if len(fn.args) != 20 or kinds[:4] != "iiii" or kinds[5] != "p" or kinds[19] != "p":
        return [("caches", None, "src/x86/cache/init.c", "parameters not recognised", name)]
    where = next((i.loc() for i in fn.insts if i.line), "src/x86/cache/init.c")
    strange, reads = [], []

    def regs(vf, leaf, sub):
        if leaf == 2:
            return [vf.const(0, 32)] * 4                # no descriptors
        if only is not None and leaf == only and sub < n:
            return [vf.const(x, 32) for x in HEAD[sub]]
        if sub > entries - 1:
            return [vf.const(0, 32)] * 4                # the list ends here
        return [vf.opaque(("cpuid", leaf, sub, r), 32) for r in range(4)]

    def hook(vf, i, nm, args, c):
        if nm == TABLE:
            strange.append(i)
            return "void"
        if isinstance(i.callee, Const) and i.callee.kind == "asm" and "cpuid" in i.callee.val:
            ks = [a for a in args if isinstance(a, tuple)]
            if vf.is_const(ks[0]):
                leaf = vf.cval(ks[0])
                if leaf == 2:
                    return Agg(regs(vf, 2, 0))
                if leaf == only and len(ks) > 1:
                    reads.append(vf.eq(ks[1], vf.const(n, 32)))
                if leaf in (4, 0x8000001D) and len(ks) > 1 and vf.is_const(ks[1]):
                    return Agg(regs(vf, leaf, vf.cval(ks[1])))
        return None
    vf = VFlow(m, call_hook=hook)
    vf.MAXSUP = 80
    b = vf.b
    for f, s in ((4, 0), (0x8000001D, 0)):              # variable order
        regs(vf, f, s)
    args = []
    for a in fn.args:
        args.append(Ptr([(1, ("argp", ROOT, a.index), 0)]) if a.ty.kind == "ptr" else vf.sym(a.ty, ("arg", ROOT, a.index)))
    en = m.di.enums
    if only is not None:
        args[0], args[1] = vf.const(0x1F, 32), vf.const(0x80000028, 32)
        args[2] = vf.const(only != 4, len(args[2]))
        args[3] = vf.const(en["cpuinfo_vendor_intel" if only == 4 else "cpuinfo_vendor_amd"], 32)
    vf.run(fn, args)
    base, vend = args[0], args[3]
    ext, amd = args[1], args[2][0]
    fs = m.di.bytefields("cpuinfo_x86_caches")
    cache, cores = ("argp", ROOT, 5), ("argp", ROOT, 19)

    def word(ba, off, n, before=False):
        w = ()
        for k in range(n):
            w += vf.initbyte(ba, off + k) if before else vf.byte(ba, off + k)
        return w
    state = {f"{l}.{f}": word(cache, *fs[f"{l}.{f}"], before=True) for l in LEVELS for f in FIELDS}
    state["cores"] = word(cores, 0, 4, before=True)
    sp = Spec(vf, {k: build.macro(cfg, "cpuinfo.h", "CPUINFO_CACHE_" + k) for k in ("UNIFIED", "INCLUSIVE", "COMPLEX_INDEXING")})

    def ge(w, c):
        return b.NOT(vf.ult(w, vf.const(c, 32)))
    act = ge(base, 4)
    for v in ("amd", "hygon"):
        act = b.AND(act, b.NOT(vf.eq(vend, vf.const(en["cpuinfo_vendor_" + v], 32))))
    for k in range(entries):
        r = regs(vf, 4, k)
        act = b.AND(act, b.NOT(vf.eq(r[0][:5], vf.const(0, 5))))
        sp.entry(r, state, act, True)
    act = b.AND(amd, ge(ext, 0x8000001D))
    for k in range(entries):
        r = regs(vf, 0x8000001D, k)
        act = b.AND(act, b.NOT(vf.eq(r[0][:5], vf.const(0, 5))))
        sp.entry(r, state, act, False)
    out = []
    if only is not None:
        # an entry of the list cannot be known without reading it
        out.append((f"entry {n} of leaf {only:#x}", any(reads) if reads else None, where,
                    f"entry {n} of CPUID leaf {only:#x} is never read", name))
    for k, e in state.items():
        got = word(cores, 0, 4) if k == "cores" else word(cache, *fs[k])
        try:
            ok, ex = vf.same(got, e, 1, pure)
        except Budget:
            ok, ex = None, None
        text = "number of bits for the cores of a package" if k == "cores" else f"{k} of the reported caches"
        out.append((k if only is None else f"{k} after {n} entries of leaf {only:#x}", ok, where, f"{text} is not what CPUID leaf 4 or 0x8000001D reports" + ("" if ok is not False else show(vf, ex)), name))
    return out


def consulted(name):
    """which processors the lists are read on"""
    have = build.load(build.raw(build.LINUX[name]), build.LINUX[name]).functions
    x = X86(build.LINUX[name], skip=[TABLE] if TABLE in have else [], unroll=False).run()
    vf, b = x.vf, x.vf.b
    seen, where = {4: 0, 0x8000001D: 0}, {}
    for i, c, leaf, sub, key in x.cpuids:
        l = vf.cval(leaf) if vf.is_const(leaf) else None
        if l in seen:
            seen[l] = b.OR(seen[l], c)
            where.setdefault(l, i.loc())

    def vendor(s):
        v = 1
        for k, r in enumerate(("ebx", "edx", "ecx")):
            v = b.AND(v, vf.eq(x.reg(0, r), vf.const(int.from_bytes(s[4 * k:4 * k + 4], "little"), 32)))
        return v
    out = []
    for leaf, vs in ((4, (b"GenuineIntel", b"CentaurHauls", b"  Shanghai  ")), (0x8000001D, (b"AuthenticAMD", b"HygonGenuine"))):
        for v in vs:
            want = b.AND(x.avail(1), x.avail(leaf))
            if leaf != 4:
                want = b.AND(want, x.bit(0x80000001, "ecx", 22))
            try:
                ok, ex = vf.same((seen[leaf],), (want,), vendor(v), reported)
            except Budget:
                ok = None
            out.append((f"leaf {leaf:#x} on {v.decode().strip()}", ok, where.get(leaf, "src/x86/cache/init.c"),
                        f"the caches of a processor by {v.decode().strip()} are not taken from CPUID leaf {leaf:#x} "
                        "exactly where the processor reports that leaf", name))
    return out


def run(job):
    return consulted(job[0]) if job[1] == "consulted" else analyse(job)


def show(vf, ex):
    from collections import defaultdict
    w = defaultdict(int)
    for k, v in ex.items():
        if k[0] == "bit":
            w[k[1]] |= v << k[2]
    reg = ("eax", "ebx", "ecx", "edx")
    s = [f"leaf {k[1]:#x}/{k[2]} {reg[k[3]]}={v:#x}" for k, v in sorted(w.items(), key=str) if k[0] == "cpuid"]
    return ", e.g. " + ", ".join(s[:8]) if s else ""


def main():
    ck = check.Check(
        "C02", "other",
        technique="Boolean-function value flow over the cache detection with the first entries of the CPUID lists peeled off its loops; "
                  "sizes are compared as products of their factors",
        rule="each cache field is the one that CPUID leaf 4 (leaf 0x8000001D on AMD and Hygon) reports for its level and type",
        assumptions=["CPUID leaf 2 reports no descriptors (property C01 is about them)", f"up to {DEPTH} entries in each list, and lists of up to {LONG[-1] + 2} entries with two arbitrary ones at the end"])
    jobs = [(c, None, 0) for c in CFGS] + [(c, l, n) for c in CFGS for n in LONG for l in (4, 0x8000001D)] + [(c, "consulted", 0) for c in CFGS]
    for r in pmap(run, jobs):
        for o in r:
            ck.obligation(*o)
    ck.finish(400)


if __name__ == "__main__":
    check.main(main)
