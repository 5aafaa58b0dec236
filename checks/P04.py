import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.sections import Lines, Records
from vf.strflow import File, StrFlow, each, module, open_name, pure, safety
from vf.util import pstream
from vf.vflow import Ptr

ROOT = "cpuinfo_x86_linux_parse_proc_cpuinfo"
SRC = "src/x86/linux/cpuinfo.c"
MAX = 4                         # processors of the system
STRUCT = "cpuinfo_x86_linux_processor"
NUMBERS = ("D", "DD", "DDD")
LINE = 2047                     # longest line, as documented


def files():
    """-> (lines, separator, line end, pieces)"""
    for p in NUMBERS:
        for a in NUMBERS:
            yield [("processor", p), ("apicid", a)], "\t: ", "\n", None
    for sep in ("\t\t: ", ":", " : ", "\t:  ", " \t : "):
        yield [("processor", "D"), ("apicid", "DD")], sep, "\n", None
    for end in (" \n", "\n\n", "\nflags : a b\n", "\njunk\n", "\n:\n", "\n : D\n", "\nx:\n", "\ninitial apicid : 7\n", "\nApicid : 7\n", "\napicidd : 7\n"):
        yield [("processor", "D"), ("apicid", "DD")], "\t: ", end, None
    yield [("processor", "D"), ("apicid", "D"), ("processor", "D"), ("apicid", "D")], "\t: ", "\n", None
    yield [("processor", "D"), ("processor", "D"), ("apicid", "D")], "\t: ", "\n", None
    yield [("apicid", "D")], "\t: ", "\n", None
    for v in ("DO", "OD", "DOD", "O"):
        yield [("processor", "D"), ("apicid", v)], "\t: ", "\n", None
    yield [("processor", "DO"), ("apicid", "D")], "\t: ", "\n", None
    for n in (5, 6, 7, 8, 9, 10):
        yield [("processor", "1"), ("K" * n, "3")], "\t: ", "\n", None
    for a in ("12D", "DD12", "4095D", "65535", "10000D", "16777215", "30000000D", "4294967295"):
        yield [("processor", "D"), ("apicid", a)], "\t: ", "\n", None
    for p in ("10D", "1000D", "65536", "2147483648", "4294967295"):
        yield [("processor", p), ("apicid", "DD")], "\t: ", "\n", None
    for p in (None, [3, 22], [14, 11]):
        yield [("processor", "D"), ("apicid", "DD")], "\t: ", "\n$", p
    ln = [("processor", "D"), ("apicid", "DD")]
    size = sum(len(k) + len(v) + 4 for k, v in ln)
    for k in range(1, size):
        yield ln, "\t: ", "\n", [k, size - k]
    # a line that fills the buffer, in one piece and in many
    for n in (1020, 1024, 1500, LINE - 1, LINE):
        f = ("flags", "x" * (n - len("flags\t: ")))
        yield [f, ("processor", "D"), ("apicid", "DD")], "\t: ", "\n", None
        yield [("processor", "D"), f, ("apicid", "DD")], "\t: ", "\n", None
        yield [("processor", "D"), f, f, ("apicid", "DD")], "\t: ", "\n", None
        yield [("processor", "D"), f, ("apicid", "DD")], "\t: ", "\n", [700] * 8
    for n in (200, 1300, 1900):
        yield [("processor", "D"), ("flags", "x" * 700), ("apicid", " " * n + "DD")], "\t: ", "\n", None
    # across the end of the buffer
    yield [("flags", "x" * 900), ("flags", "x" * 900), ("flags", "x" * 900), ("processor", "D"), ("apicid", "DD")], "\t: ", "\n", None
    for k in range(0, 24, 3):
        yield [("flags", "x" * 600), ("flags", "x" * 600), ("flags", "x" * (800 + k)), ("processor", "D"), ("apicid", "DD")], "\t: ", "\n", None


def job(a):
    name, cfg, part = a
    m = module(cfg, [ROOT])
    fn = m.functions.get(ROOT)
    if fn is None or "".join("p" if x.ty.kind == "ptr" else "i" for x in fn.args) != "ip":
        return [("root", None, SRC, "function not found", name)]
    listed = build.macro(cfg, "linux/api.h", "CPUINFO_LINUX_FLAG_PROC_CPUINFO")
    known = build.macro(cfg, "linux/api.h", "CPUINFO_LINUX_FLAG_APIC_ID")
    fs = m.di.bytefields(STRUCT)
    if not {"apic_id", "flags"} <= set(fs) or None in (listed, known):
        return [("root", None, SRC, "record of a processor not recognised", name)]
    stride = max(o + n for o, n in fs.values())
    where = next((i.loc() for i in fn.insts if i.line), SRC)
    out = []

    def one(lines, sep, end, pieces):
        vf = StrFlow(m)
        b = vf.b
        L = Lines(vf, lines, sep, end)
        t = L.text
        f = File(t.data, pieces)
        vf.call_hook = f.hook
        vf.track = lambda x: x in f.texts
        P = ("argp", ROOT, 1)
        R = Records(vf, P, stride, MAX, {k: fs[k] for k in ("apic_id", "flags")})
        r, g = vf.run(fn, [vf.const(MAX, 32), Ptr([(1, P, 0)])], guard=t.pre)
        show = " | ".join(f"{k}{sep}{v if len(v) < 20 else '...'}" for k, v in lines).replace("\t", " ")
        key = f"'{show}'" + (f" end {end!r}" if end != "\n" else "") + (f" read as {pieces}" if pieces else "")
        if lines == [("processor", "D"), ("apicid", "D")]:
            open_name(vf, f, "/proc/cpuinfo", None, out, key, name, SRC)
        safety(vf, f, key, out, name, SRC)
        for (k, v), (k0, k1, v0, v1) in zip(lines, L.pos):
            v0 += len(v) - len(v.lstrip(" "))
            v = v.lstrip(" ")
            n = 0
            while v0 + n < v1 and v[n] in "D0123456789":
                n += 1
            cond = {}
            for kk in ("processor", "apicid"):
                if set(k) == {"K"}:
                    c = 1 if len(k) == len(kk) else 0
                    # shorter keys may be followed by spaces
                    if len(k) > len(kk):
                        c = 1
                    for j in range(len(k)):
                        if c and j < len(kk):
                            c = b.AND(c, vf.eq(t.data[k0 + j], vf.const(ord(kk[j]), 8)))
                        elif c:
                            c = b.AND(c, b.OR(vf.eq(t.data[k0 + j], vf.const(32, 8)), vf.eq(t.data[k0 + j], vf.const(9, 8))))
                    cond[kk] = c
                else:
                    cond[kk] = 1 if k == kk else 0
            if cond["apicid"] and n == v1 - v0:
                R.set("apic_id", t.number(v0, v1), cond["apicid"])
                R.set_bits("flags", known, cond["apicid"])
            if cond["processor"] and n:
                R.cur = vf.w_ite(cond["processor"], t.number(v0, v0 + n), R.cur)
                R.set_bits("flags", listed, cond["processor"])
        ok, what = R.compare(t.pre)
        out.append((key, ok, where, f"the file does not give the {what} that it should", name))
        if r is not None:
            out.append((key + ": status", vf.decide(b.AND(g, b.NOT(r[0])), pure)[0], where, "a readable file is reported as a failure", name))

    return each(one, part, out, name, SRC)


def main():
    ck = check.Check(
        "P04", "other",
        technique="Boolean-function value flow through the file reader and line parser, iteration by iteration, over texts with symbolic "
                  "digits, keys and split points",
        rule="the record of each processor gets exactly the APIC identifier of its own section, processors beyond the system's limit change "
             "nothing, other lines change nothing, and nothing is read beyond the text or written beyond the buffer",
        assumptions=["lines up to 2047 characters; numbers of up to three free digits, longer ones with one or two"])
    jobs = []
    for name in ("x86_64", "i686"):
        cfg = build.LINUX[name].with_level(5)
        build.raw(cfg)
        fl = list(files())
        jobs += [(name, cfg, fl[k::4]) for k in range(4)]
    for r in pstream(job, jobs, ck):
        for o in r:
            ck.obligation(*o)
    ck.finish(100)


if __name__ == "__main__":
    check.main(main)
