"""Common parts of the ARM ISA checks."""
import os
import re
import subprocess

from . import build
from .vflow import VFlow, Ptr


def kernel_hwcaps(triple_dir, prefixes):
    """bit numbers that the installed kernel headers assign"""
    p = f"/usr/{triple_dir}/include/asm/hwcap.h"
    if not os.path.exists(p):
        return None
    txt = open(p).read()
    out = {}
    for m in re.finditer(r"#define\s+(HWCAP2?)_(\w+)\s+\(?(?:1U?L?L?\s*<<\s*(\d+))\)?", txt):
        out[(m.group(1), m.group(2))] = int(m.group(3))
    return out


class Decoder:
    """value flow of the function that turns kernel-reported features into ISA flags"""

    def __init__(self, cfg, root):
        self.cfg = cfg
        self.m = build.load(build.inlined(cfg, [root]), cfg)
        self.fn = self.m.functions.get(root)
        if self.fn is None or self.fn.decl:
            raise RuntimeError("anchor function %s not found" % root)
        self.vf = VFlow(self.m, call_hook=self.hook)
        self.regs = {}
        self.b = self.vf.b
        self.prctl = []
        ptrs = [a for a in self.fn.args if a.ty.kind == "ptr"]
        self.chipset, self.isa = ptrs[-2], ptrs[-1]
        fl = self.m.di.bytefields("cpuinfo_arm_isa")
        self.fields = fl
        # flags start cleared
        base = ("argp", self.fn.name, self.isa.index)
        self.isabase = base
        self.vf.mem[base] = {o + k: (0,) * 8 for o, s in fl.values() for k in range(s)}
        self.args = []
        for a in self.fn.args:
            if a.ty.kind == "ptr":
                self.args.append(Ptr([(1, ("argp", self.fn.name, a.index), 0)]))
            else:
                self.args.append(self.vf.sym(a.ty, ("arg", a.index)))
        self.vf.run(self.fn, self.args)

    def hook(self, vf, i, nm, args, c):
        from .ir import Const
        if isinstance(i.callee, Const) and i.callee.kind == "asm":
            k = ("asm", re.sub(r"\s+", " ", i.callee.val))
            self.regs[k] = vf.sym(i.ty, k)
            return self.regs[k]
        if nm == "prctl":
            self.prctl.append((i, c, args))
        return None

    def flag(self, name):
        o, s = self.fields[name]
        r = 0
        for x in self.vf.byte(self.isabase, o):
            r = self.b.OR(r, x)
        return r

    def chip(self, field):
        o, s = self.m.di.bytefields("cpuinfo_arm_chipset")[field]
        w = ()
        for k in range(s):
            w += self.vf.byte(("argp", self.fn.name, self.chipset.index), o + k)
        return w

    def is_chip(self, series, model):
        v = self.m.di.enums["cpuinfo_arm_chipset_series_" + series]
        s = self.chip("series")
        m = self.chip("model")
        return self.b.AND(self.vf.eq(s, self.vf.const(v, len(s))), self.vf.eq(m, self.vf.const(model, len(m))))

    def core(self, midr, parts):
        r = 0
        for p in parts:
            e = 1
            for k in list(range(4, 16)) + list(range(24, 32)):
                e = self.b.AND(e, midr[k] if (p >> k) & 1 else self.b.NOT(midr[k]))
            r = self.b.OR(r, e)
        return r

    def variant_ge(self, midr, n):
        v = midr[20:24]
        return self.b.NOT(self.vf.ult(v, self.vf.const(n, 4)))

    def pure(self, k):
        """a bit of the decoder's inputs"""
        if k[0] != "bit":
            return False
        k = k[1]
        while isinstance(k, tuple) and k and isinstance(k[0], tuple):
            k = k[0]
        return k[0] in ("arg", "asm") or k[0] == "mem" and k[1][0] == "argp"

    def compare(self, ck, name, want, where, assume=1):
        from .bdd import name as nm
        g = self.flag(name)
        d = self.b.AND(assume, self.b.XOR(g, want))
        ok, w = self.vf.decide(d, self.pure)
        if ok is not False:
            ck.obligation(name, ok, where, "" if ok else "depends on values that the analysis does not know", self.cfg.name)
            return
        kind = "reported although not available" if self.b.AND(d, g) else "not reported although available"
        ck.obligation(name, False, where,
                      f"flag '{name}' is not the documented function of the kernel-reported features and the core: "
                      f"{kind}, e.g. when " + ", ".join(f"{nm(k)}={v}" for k, v in list(w.items())[:16]), self.cfg.name)


HWCAP_FN = "cpuinfo_arm_linux_hwcap_from_getauxval"


def wiring(ck, cfg, root, params):
    """the decoder's inputs in the initialization: `params` names what each integer argument must be"""
    from .prov import origins, root as proot, alloca_stores
    from .ir import Inst, Const, Function
    from .util import callee
    m = build.load(build.inlined(cfg, ["cpuinfo_arm_linux_init"], noinline=[root, HWCAP_FN]), cfg)
    fn = m.functions["cpuinfo_arm_linux_init"]
    calls = [i for i in fn.insts if callee(i) == root]
    hw = [i for i in fn.insts if callee(i) == HWCAP_FN]
    if not calls or not hw:
        # decoder reached some other way: nothing to compare
        ck.obligation("decoder inputs", None, "src/arm/linux/init.c", "decoder or feature source not called directly "
                      "from the initialization", cfg.name)
        return
    fl = m.di.bytefields("cpuinfo_arm_linux_processor")
    size = m.di.sizeof("cpuinfo_arm_linux_processor")
    for c in calls:
        ints = [a for a in c.args if a.ty.kind == "int"]
        for a, p in zip(ints, params):
            ok = None
            bad = ""
            for o in origins(a):
                if isinstance(o, Const):
                    continue
                if isinstance(o, Inst) and o.op == "load":
                    b, off, idx = proot(o.ops[0])
                    if p.startswith("hwcap"):
                        k = int(p[5:])
                        mine = [h for h in hw if h.args[k - 1] is b]
                        other = [h for h in hw if h.args[2 - k] is b]
                        if mine:
                            ok = True if ok is None else ok
                            if mine[0].uid > c.uid:
                                ok, bad = False, "read before it is filled in"
                        elif other:
                            ok, bad = False, "it is the other feature word"
                    else:
                        fo = off % size if any(s == size for _, s in idx) or off else off
                        names = [n for n, (x, s) in fl.items() if x == fo]
                        if p in names and not idx and callee(b) in ("calloc", "malloc"):
                            ok, bad = False, "it is that of one fixed processor, usable or not"
                        elif names == [p] or p in names:
                            ok = True if ok is None else ok
                        elif names and any(s == size for _, s in idx):
                            ok, bad = False, f"it is the processors' '{names[0]}'"
            ck.obligation(f"decoder input: {p}", ok, c.loc(),
                          f"the ISA decoder does not receive the detected {p} here ({bad})" if bad else
                          "source of this decoder input not recognised", cfg.name)


def usable_source(ck, cfg):
    """identification that a loop over the processors carries on comes from usable processors only"""
    from .cluster import Groups
    from .topo import Topo
    t = Topo(cfg)
    g = Groups(t)
    if g.valid is None:
        ck.obligation("usable processors", None, "src/linux/api.h", "mark of usable processors not found", cfg.name)
        return
    for l in t.loops:
        it = g.iteration(l)
        for ph, _, _, nxt in it.phis():
            for w, h in nxt.items():
                r = t.rec(w)
                if r and r[2] in ("midr", "architecture_version", "architecture_flags"):
                    ck.obligation(f"usable processors: {r[2]}", g.usable(it, l.header, h, g.norm(it, r[1])), ph.loc(),
                                  f"the {r[2]} of a processor that need not be usable is taken", cfg.name)


def hwcap_source(ck, cfg):
    """the two feature words are the kernel's AT_HWCAP and AT_HWCAP2 auxiliary vector entries"""
    from .vflow import VFlow
    root = HWCAP_FN
    m = build.load(build.inlined(cfg, [root]), cfg)
    fn = m.functions.get(root)
    if fn is None or fn.decl:
        raise RuntimeError("anchor function %s not found" % root)
    bits = []

    def hook(vf, i, nm, args, c):
        if nm == "getauxval":
            bits.append(i.ty.bits)
            return vf.sym(i.ty, ("getauxval", vf.cval(args[0])))
        return None
    vf = VFlow(m, call_hook=hook)
    vf.run(fn)
    if not bits:
        ck.obligation("AT_HWCAP source", None, "src/arm/linux/hwcap.c", "auxiliary vector not read directly", cfg.name)
        return
    for idx, (at, n) in enumerate(((16, 4), (26, 8))):
        w = ()
        for k in range(n):
            w += vf.byte(("argp", fn.name, idx), k)
        want = (vf.opaque(("getauxval", at), bits[0]) + (0,) * 64)[:8 * n]
        ck.obligation(f"AT_HWCAP source {idx + 1}", w == want, "src/arm/linux/hwcap.c",
                      f"feature word {idx + 1} is not the kernel's auxiliary vector entry {at}", cfg.name)
