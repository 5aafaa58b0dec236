import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.strflow import cstring, module
from vf.util import pstream
from vf.vflow import NULL, Ptr, VFlow

BITS = 12                       # lengths below 2**BITS
W = 64
# level -> (prefix without and with a module name, stream)
LEVELS = {"debug": ("Debug: ", "Debug (%s): ", 1), "info": ("Note: ", "Note (%s): ", 1), "warning": ("Warning: ", "Warning in %s: ", 2),
          "error": ("Error: ", "Error in %s: ", 2), "fatal": ("Fatal error: ", "Fatal error in %s: ", 2)}
CPU = "src/log.c"
CLOG = "deps/clog/src/clog.c"


def pure(k):
    while isinstance(k, tuple) and k and k[0] == "bit":
        k = k[1]
    if isinstance(k, tuple) and k and k[0] == "isnull":
        return k[1][0] == "heap"
    return isinstance(k, tuple) and k and k[0] in ("length", "position")


class Log(VFlow):
    """keeps, per buffer, what was written to it and under which condition"""
    MAXSUP = 200

    def __init__(self, m):
        super().__init__(m)
        self.layers = {}                # buffer -> [(guard, kind, ...)]
        self.writes, self.bounds, self.lists, self.fresh = [], [], [], []
        self.used = {}                  # argument list -> condition under which it was consumed
        self.copied = {}
        self.caps = {}
        self.unknown = None
        b = self.b
        pn = []
        for k in range(BITS):
            pn.append((b.atom(("length", "prefix", k)), b.atom(("length", "text", k)), b.atom(("position", k))))
        self.P0 = tuple(x for x, _, _ in pn)
        self.N0 = tuple(x for _, x, _ in pn)
        self.J = tuple(x for _, _, x in pn) + (b.atom(("position", BITS)),) + (0,) * (W - BITS - 1)
        self.psign, self.nsign = b.atom(("length", "prefix", "sign")), b.atom(("length", "text", "sign"))
        self.call_hook = self.hook

    def ext(self, w, signed=True):
        return w + ((w[-1] if signed else 0),) * (W - len(w)) if len(w) < W else w[:W]

    def where(self, base, off):
        """-> (buffer, offset word)"""
        w = self.const(off & (1 << W) - 1, W)
        while base[0] == "elt":
            _, up, co, s, idx = base
            x = self.ext(idx)
            if s != 1:
                return base, None
            w = self.add(self.add(w, x), self.const(co & (1 << W) - 1, W))
            base = up
        return base, w

    def step(self, i, c, get):
        if i.op == "alloca":
            p = super().step(i, c, get)
            self.caps[p.alts[0][1]] = self.const(i.size, W)
            return p
        return super().step(i, c, get)

    def layer(self, p, guard, kind, *rest):
        """something is written at p"""
        for g, base, off in p.alts:
            t = self.b.AND(guard, g)
            if not t or base == NULL:
                continue
            root, w = self.where(base, off)
            if w is None:
                self.unknown = "place of a write not understood"
                return
            self.layers.setdefault(root, []).append((t, kind, w) + rest)

    def bound(self, p, n, guard, inst):
        for g, base, off in p.alts:
            t = self.b.AND(guard, g)
            if not t:
                continue
            if base == NULL:
                self.bounds.append((self.b.AND(t, self.b.NOT(self.eq(n, self.const(0, W)))), inst))
                continue
            root, w = self.where(base, off)
            cap = self.caps.get(root)
            if w is None or cap is None:
                if root[0] in ("alloca", "heap"):
                    self.unknown = "size of a buffer not understood"
                continue
            end = self.add(w, n)
            self.bounds.append((self.b.AND(t, self.b.OR(self.ult(cap, end), w[-1])), inst))

    def store(self, p, v, guard, size, inst=None):
        if isinstance(v, tuple) and len(v) % 8 == 0 and isinstance(p, Ptr):
            if any(self.root(ba)[0] in ("alloca", "heap") for _, ba, _ in p.alts):
                self.layer(p, guard, "bytes", [v[k:k + 8] for k in range(0, len(v), 8)])
                if any(ba[0] == "elt" or ba[0] == "heap" for _, ba, _ in p.alts):
                    self.bound(p, self.const(len(v) // 8, W), guard, inst)
        super().store(p, v, guard, size, inst)

    def hook(self, vf, i, nm, args, c):
        b = self.b
        if nm is None:
            return None
        if nm.startswith(("llvm.memcpy", "llvm.memmove")) or nm in ("memcpy", "memmove"):
            n = self.ext(args[2], False)
            if any(self.root(ba)[0] in ("alloca", "heap") for _, ba, _ in args[0].alts):
                src = args[1]
                if len(src.alts) == 1:
                    _, ba, o = src.alts[0]
                    root, w = self.where(ba, o)
                    if root[0] == "g" and self.is_const(n) and self.is_const(w):
                        k = self.cval(n)
                        self.layer(args[0], c, "bytes", [self.byte(root, self.cval(w) + j) for j in range(k)])
                    elif w is not None:
                        # the contents of the source at this moment
                        self.layer(args[0], c, "copy", n, list(self.layers.get(root, ())), w)
                    else:
                        self.unknown = "source of a copy not understood"
                else:
                    self.unknown = "source of a copy not understood"
                self.bound(args[0], n, c, i)
            return None if self.is_const(n) and self.cval(n) < 512 else "void" if i.ty.kind == "void" else args[0]
        if nm in ("snprintf", "vsnprintf"):
            size = self.ext(args[1], False)
            f = cstring(self, args[2])
            if nm == "snprintf":
                if len(args) != 4 or f is None or f.count("%") != 1:
                    self.unknown = "format not understood"
                    return None
                n, sign = self.P0, self.psign
                ok = isinstance(args[3], Ptr) and all(x[1:] == (("argp", self.root_name, 0), 0) for x in args[3].alts)
                kind = ("prefix", f if ok else None)
            else:
                kind, n, sign = ("text", self.same_format(i, args[2])), self.N0, self.nsign
                self.consume(args[3], c, i)
            full = n + (0,) * (W - BITS)
            got = self.w_ite(self.ult(full, size), self.add(full, self.const(1, W)), size)
            got = self.w_ite(sign, self.const(0, W), got)
            self.layer(args[0], b.AND(c, b.NOT(sign)), kind, size, full)
            self.bound(args[0], got, c, i)
            return n + (sign,) * (i.ty.bits - BITS)
        if nm == "malloc":
            p = Ptr([(1, ("heap", i.uid), 0)])
            self.caps[("heap", i.uid)] = self.ext(args[0], False)
            return p
        if nm.startswith("llvm.va_copy"):
            d, s = args[0], args[1]
            if len(d.alts) == 1 and len(s.alts) == 1:
                self.copied[d.alts[0][1:]] = (s.alts[0][1:], self.used.get(s.alts[0][1:], 0), c)
            return "void"
        if nm == "write":
            self.writes.append((c, args, i))
            return self.sym(i.ty, ("written", i.uid))
        return None

    def same_format(self, i, p):
        return isinstance(p, Ptr) and all(x[1:] == (("argp", self.root_name, self.format_arg), 0) for x in p.alts)

    def consume(self, p, c, i):
        if not isinstance(p, Ptr) or len(p.alts) != 1:
            return
        k = p.alts[0][1:]
        was = self.used.get(k, self.copied[k][1] if k in self.copied else 0)
        self.lists.append((self.b.AND(c, was), i))
        base = k[0]
        if k in self.copied:
            self.fresh.append((self.b.AND(c, self.b.NOT(self.copied[k][2])), i))
        elif base[0] == "alloca" and not self.ver.get(("w", base)) and not self.ver.get(base):
            self.fresh.append((c, i))
        self.used[k] = self.b.OR(was, c)

    def holds(self, layers, pos, ctx):
        """condition under which the buffer has the right character at this position"""
        b = self.b
        total, pre, P, N = ctx["total"], ctx["prefix"], ctx["P"], ctx["N"]
        r = 0
        for g, kind, w, *rest in layers:
            d = self.add(pos, w, sub=True)
            if kind == "bytes":
                for k, by in enumerate(rest[0]):
                    hit = b.AND(g, self.eq(d, self.const(k, W)))
                    if not hit:
                        continue
                    ok = b.AND(self.eq(pos, total), self.eq(by, self.const(10, 8)))
                    if isinstance(pre, str) and self.is_const(w) and 0 <= self.cval(w) + k < len(pre):
                        q = self.cval(w) + k
                        ok = b.OR(ok, b.AND(self.eq(pos, self.const(q, W)), self.eq(by, self.const(ord(pre[q]), 8))))
                    r = b.ite(hit, ok, r)
            elif kind == "copy":
                n, src, so = rest
                hit = b.AND(g, self.ult(d, n))
                if hit:
                    if w != so:
                        r = b.AND(r, b.NOT(hit))
                    else:
                        r = b.ite(hit, self.holds(src, pos, ctx), r)
            else:
                size, full = rest
                any_ = b.NOT(self.eq(size, self.const(0, W)))
                last = self.add(size, self.const((1 << W) - 1, W))
                n = self.w_ite(self.ult(full, size), full, last)
                hit = b.AND(b.AND(g, any_), self.ult(d, n))
                nul = b.AND(b.AND(g, any_), self.eq(d, n))
                if kind[0] == "text":
                    ok = b.AND(1 if kind[1] else 0, b.AND(self.eq(w, P), b.AND(b.NOT(self.ult(pos, P)), self.ult(pos, total))))
                else:
                    ok = b.AND(1 if kind[1] == ctx["format"] else 0, b.AND(self.eq(w, self.const(0, W)), self.ult(pos, P)))
                r = b.ite(hit, ok, b.AND(r, b.NOT(nul)))
        return r


def job(a):
    name, cfg, fname, level, mod, src = a
    m = module(cfg, [fname])
    fn = m.functions.get(fname)
    if fn is None or fn.decl:
        return [(fname, None, src, "function not found", name)]
    plain, fmt, stream = LEVELS[level]
    vf = Log(m)
    b = vf.b
    vf.root_name, vf.format_arg = fname, 0 if mod is None else 1
    args = None
    if mod is not None:
        args = [Ptr([(1, ("argp", fname, 0), 0)]) if mod else Ptr([(1, NULL, 0)])] + [
            Ptr([(1, ("argp", fname, k), 0)]) if x.ty.kind == "ptr" else vf.sym(x.ty, ("arg", fname, k)) for k, x in enumerate(fn.args) if k]
    vf.run(fn, args)
    key = f"{fname}{'' if mod is None else ' with a module name' if mod else ' without a module name'}"
    where = next((i.loc() for i in fn.insts if i.line), src)
    out = []
    if vf.unknown or not vf.writes:
        return [(key, None if vf.unknown or vf.b is None else False, where, vf.unknown or "nothing is written", name)]
    zero = vf.const(0, W)
    N = vf.N0 + (0,) * (W - BITS)
    if mod:
        P = vf.w_ite(vf.psign, zero, vf.P0 + (0,) * (W - BITS))
        pre = None
    else:
        pre = plain if mod is not None else fmt.replace("%s", "cpuinfo")
        P = vf.const(len(pre), W)
    total = vf.add(P, N)
    ctx = {"total": total, "prefix": pre, "P": P, "N": N, "format": fmt}
    some, twice = 0, 0
    for c, (fd, buf, n), i in vf.writes:
        twice = b.OR(twice, b.AND(some, c))
        some = b.OR(some, c)
        loc = i.loc()
        out.append((key + ": stream", vf.decide(b.AND(c, b.NOT(vf.eq(fd, vf.const(stream, len(fd))))), pure)[0], loc, "written to another stream", name))
        d = b.AND(c, b.NOT(vf.eq(vf.ext(n, False), vf.add(total, vf.const(1, W)))))
        out.append((key + ": length", vf.decide(d, pure)[0], loc, "the length written is not that of prefix, text and line end", name))
        bad = 0
        for g, base, off in buf.alts:
            t = b.AND(c, g)
            if not t:
                continue
            root, w = vf.where(base, off)
            if w is None or not vf.is_const(w) or vf.cval(w):
                bad = None
                break
            here = b.AND(t, b.NOT(vf.ult(total, vf.J)))
            bad = b.OR(bad, b.AND(here, b.NOT(vf.holds(vf.layers.get(root, []), vf.J, ctx))))
        out.append((key + ": contents", None if bad is None else vf.decide(bad, pure)[0], loc,
                    "what is written is not the prefix, the whole text and a line end", name))
    out.append((key + ": once", vf.decide(twice, pure)[0], where, "the message can be written twice", name))
    heap = 1
    for k in vf.caps:
        if k[0] == "heap":
            heap = b.AND(heap, b.NOT(b.atom(("isnull", k, 0))))
    d = b.AND(b.AND(b.NOT(vf.nsign), heap), b.NOT(some))
    out.append((key + ": written", vf.decide(d, pure)[0], where, "the message is not written although it can be formatted", name))
    out.append((key + ": failure", vf.decide(b.AND(vf.nsign, some), pure)[0], where, "something is written although the message cannot be formatted", name))
    for d, i in vf.bounds:
        out.append((key + ": bounds", vf.decide(d, pure)[0], i.loc() if i is not None else where, "written beyond the end of the buffer", name))
    if name.startswith("x86_64"):
        for d, i in vf.lists:
            out.append((key + ": arguments", vf.decide(d, pure)[0], i.loc(), "the list of arguments is used a second time", name))
        for d, i in vf.fresh:
            out.append((key + ": arguments", vf.decide(d, pure)[0], i.loc(), "the list of arguments is used without having been copied", name))
    return out


FILTER = """
#include <clog.h>
#define F(l) \\
CLOG_DEFINE_LOG_DEBUG(debug##l, "m", l) CLOG_DEFINE_LOG_INFO(info##l, "m", l) CLOG_DEFINE_LOG_WARNING(warning##l, "m", l) \\
CLOG_DEFINE_LOG_ERROR(error##l, "m", l) CLOG_DEFINE_LOG_FATAL(fatal##l, "m", l) \\
void use_debug##l(void) { debug##l("x"); } void use_info##l(void) { info##l("x"); } void use_warning##l(void) { warning##l("x"); } \\
void use_error##l(void) { error##l("x"); } void use_fatal##l(void) { fatal##l("x"); }
F(0) F(1) F(2) F(3) F(4) F(5)
"""
CPUFILTER = """
#include <cpuinfo/log.h>
void use_debug(void) { cpuinfo_log_debug("x"); }
void use_info(void) { cpuinfo_log_info("x"); }
void use_warning(void) { cpuinfo_log_warning("x"); }
void use_error(void) { cpuinfo_log_error("x"); }
void use_fatal(void) { cpuinfo_log_fatal("x"); }
"""


def reach(m, f):
    """functions called on every path / on some path from the entry of f, following calls"""
    out, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g is None or g.decl:
            continue
        for i in g.insts:
            if i.op == "call":
                n = getattr(i.callee, "name", None)
                if n is None or n.startswith("llvm."):
                    continue
                if n not in out:
                    out.add(n)
                    todo.append(m.functions.get(n))
    return out


def filters(out):
    order = ["fatal", "error", "warning", "info", "debug"]
    d = os.path.join(build.tmp(), "filter")
    os.makedirs(d, exist_ok=True)
    for kind in ("clog", "cpuinfo"):
        for lv in range(6) if kind == "cpuinfo" else [5]:
            src = os.path.join(d, f"{kind}{lv}.c")
            open(src, "w").write(FILTER if kind == "clog" else CPUFILTER)
            cfg = build.LINUX["x86_64"].with_level(lv).with_flags("filter" + kind, ["-I" + build.REPO + "/deps/clog/include"]).only()
            m = build.load(build.inlined(cfg, [f"use_{x}{k if kind == 'clog' else ''}" for x in order for k in (range(6) if kind == "clog" else [0])], [src]))
            for k in (range(6) if kind == "clog" else [lv]):
                for n, x in enumerate(order):
                    f = m.functions.get(f"use_{x}{k}" if kind == "clog" else f"use_{x}")
                    calls = reach(m, f) if f is not None else set()
                    name = f"{kind}_vlog_{x}"
                    want = k >= n + 1
                    ok = f is not None and (name in calls) == want and not {c for c in calls if c.startswith(kind + "_vlog_")} - {name}
                    out.append((f"{kind} {x} at level {k}", ok, "deps/clog/include/clog.h" if kind == "clog" else "src/cpuinfo/log.h",
                                "messages are written at the wrong levels", "x86_64"))
                    ends = "abort" in calls
                    out.append((f"{kind} {x} at level {k}: end", ends == (x == "fatal"), "deps/clog/include/clog.h" if kind == "clog" else "src/cpuinfo/log.h",
                                "a fatal error has to end the program, and nothing else", "x86_64"))


def main():
    ck = check.Check(
        "L01", "other",
        technique="value flow over Boolean functions (BDD) of the lengths of prefix and text, with abstract contents of the buffers at a "
                  "symbolic position",
        rule="each message is written once, to the stream of its level, as prefix, whole text and line end, for all lengths; no buffer is "
             "overrun, no argument list used twice; the level decides what is written and fatal errors end the program",
        assumptions=[f"lengths below {1 << BITS}", "vsnprintf and snprintf behave as in C99"])
    jobs = []
    for name in ("x86_64", "i686", "aarch64", "armv7", "riscv64"):
        cfg = build.LINUX[name].with_level(5).only(CPU)
        build.raw(cfg)
        jobs += [(name, cfg, "cpuinfo_vlog_" + x, x, None, CPU) for x in LEVELS]
        cfg = build.LINUX[name].with_flags("clog", ["-I" + build.REPO + "/deps/clog/include"]).only(CLOG)
        build.raw(cfg)
        jobs += [(name, cfg, "clog_vlog_" + x, x, mod, CLOG) for x in LEVELS for mod in (False, True)]
    for r in pstream(job, jobs, ck):
        for o in r:
            ck.obligation(*o)
    out = []
    filters(out)
    for o in out:
        ck.obligation(*o)
    ck.finish(300)


if __name__ == "__main__":
    check.main(main)
