"""Value flow of the x86 per-processor detection (everything between CPUID and the decoded processor)."""
from . import build
from .ir import Const
from .vflow import VFlow, Ptr, Agg

SUBLEAF = {4, 7, 0xB, 0xD, 0x1F, 0x24, 0x8000001D, 0x80000026}
REG = {"eax": 0, "ebx": 1, "ecx": 2, "edx": 3}


def cpuid_key(vf, args):
    ks = [vf.cval(a) if vf.is_const(a) else a for a in args if isinstance(a, tuple)]
    leaf = ks[0]
    if isinstance(leaf, int):
        if leaf in SUBLEAF:
            return ("cpuid", leaf, ks[1] if len(ks) > 1 else "?")
        return ("cpuid", leaf)
    return ("cpuid",) + tuple(ks)


def pure(k):
    """a bit that the processor reports"""
    if k[0] != "bit":
        return False
    k = k[1]
    while isinstance(k, tuple) and k and isinstance(k[0], tuple):
        k = k[0]
    return isinstance(k, tuple) and (k[0] == "xgetbv" or k[0] == "cpuid" and isinstance(k[1], int))


UNROLL = "function(sroa,simplifycfg,loop-simplify,lcssa,loop-unroll<O2;full-unroll-max=64>,sroa,instsimplify,simplifycfg)"


class X86:
    ROOT = "cpuinfo_x86_init_processor"

    def __init__(self, cfg, root=None, on_cpuid=None, skip=(), unroll=True):
        self.cfg = cfg
        root = root or self.ROOT
        have = build.load(build.raw(cfg), cfg).functions if skip else {}
        # loops are unrolled where the parts with data-dependent loops are left out
        self.path = build.inlined(cfg, [root], noinline=skip,
                                  post=UNROLL if unroll and skip and all(s in have for s in skip) else "function(sroa,simplifycfg)")
        self.m = build.load(self.path, cfg)
        if root not in self.m.functions:
            raise RuntimeError("anchor function %s not found" % root)
        self.fn = self.m.functions[root]
        self.cpuids = []      # (inst, guard, leaf word, subleaf word or None)
        self.asms = []        # (inst, guard, text) of all other inline assembly
        self.on_cpuid = on_cpuid
        self.skipped = []

        def hook(vf, i, nm, args, c):
            cal = i.callee
            if nm in skip:
                # not analysed here: its results are unknown
                for a, o in zip(args, i.args):
                    if isinstance(a, Ptr):
                        for g, base, off in a.alts:
                            self.skipped.append((nm, base, off))
                return "void" if i.ty.kind == "void" else vf.sym(i.ty, ("skipped", nm, i.uid))
            if isinstance(cal, Const) and cal.kind == "asm":
                s = cal.val
                if "cpuid" in s:
                    k = cpuid_key(vf, args)
                    ws = [a for a in args if isinstance(a, tuple)]
                    self.cpuids.append((i, c, ws[0], ws[1] if len(ws) > 1 else None, k))
                    return vf.sym(i.ty, k)
                self.asms.append((i, c, s))
                if "0x0F, 0x01, 0xD0" in s or "xgetbv" in s:
                    ks = tuple(vf.cval(a) if vf.is_const(a) else a for a in args if isinstance(a, tuple))
                    return vf.sym(i.ty, ("xgetbv",) + ks)
            return None
        self.vf = VFlow(self.m, call_hook=hook)
        zero_globals(self.vf, self.m)

    def run(self):
        self.vf.run(self.fn)
        return self

    def reg(self, leaf, reg, sub=None):
        key = ("cpuid", leaf) if leaf not in SUBLEAF else ("cpuid", leaf, sub or 0)
        return self.vf.opaque((key, REG[reg]), 32)

    def bit(self, leaf, reg, bit, sub=None):
        return self.reg(leaf, reg, sub)[bit]

    def ge(self, w, c):
        return self.vf.b.NOT(self.vf.ult(w, self.vf.const(c, 32)))

    def avail(self, leaf):
        """the processor reports this CPUID leaf as implemented"""
        if leaf >= 0xC0000000:
            return self.ge(self.reg(0xC0000000, "eax"), leaf)
        if leaf >= 0x80000000:
            return self.ge(self.reg(0x80000000, "eax"), leaf)
        return self.ge(self.reg(0, "eax"), leaf)

    def field(self, struct, name, base=("argp", None, 0)):
        o, s = self.m.di.bytefields(struct)[name]
        if base[1] is None:
            base = ("argp", self.fn.name, 0)
        out = ()
        for k in range(s):
            out += self.vf.byte(base, o + k)
        return out


def zero_globals(vf, m):
    """non-constant globals start with their static initialisers (analysis of the first and only call)"""
    for g in m.globals.values():
        if g.init is not None and not g.const and g.valty.size <= 1 << 16:
            by, pt = {}, {}
            vf._flatten(g.init, g.valty, 0, by, pt)
            vf.mem[("g", g.name)] = by
            if pt:
                vf.pmem[("g", g.name)] = pt
