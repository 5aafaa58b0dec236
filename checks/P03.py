import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import arm_proc as spec
from vf import build, check
from vf.sections import Lines, Records
from vf.strflow import File, StrFlow, agree, both, each, module, open_name, pure, safety
from vf.util import pstream
from vf.vflow import Ptr

ROOT = "cpuinfo_arm_linux_parse_proc_cpuinfo"
SRC = "src/arm/linux/cpuinfo.c"
MAX = 4                         # processors of the system
LINE = 1023                     # longest line, as documented
STRUCT = "cpuinfo_arm_linux_processor"
API = "arm/linux/api.h"
H = "0xHHHHH"


def one(k, v):
    return [("processor", "D"), (k, v)]


def files(arch):
    """-> (lines, separator, line end, pieces)"""
    for p in ("D", "DD", "DDD"):
        yield [("processor", p), ("CPU part", "0xHHH")], "\t: ", "\n", None
    for k, (lo, w, n) in spec.MIDR.items():
        for d in range(1, n + 1):
            yield one(k, "0x" + "H" * d), "\t: ", "\n", None
        # not well-formed: ignored
        for v in ("0x", "0x" + "H" * (n + 1), "0x" + "H" * (n - 1) + "O", "H" * min(n + 2, 3), "1xH", "0XH"):
            yield one(k, v), "\t: ", "\n", None
    for v in ("D", "1D", "DO", "O", "16", "255", "4095", "65552", "4294967295"):
        yield one("CPU revision", v), "\t: ", "\n", None
    for v in ("D", "DD", "0", "00", "O", "OD", "DO", "AArch64", "AArch32") + (("5T", "5TE", "5TEJ", "6TEJ", "4T", "5E", "5J", "7") if arch == "armv7" else ("8",)):
        yield one("CPU architecture", v), ": ", "\n", None
    names = spec.FEATURES[arch]
    for n in names:
        yield one("Features", n), "\t: ", "\n", None
    ns = list(names)
    for k in range(len(ns)):
        yield one("Features", " ".join((ns[k], ns[(k + 5) % len(ns)], ns[(k + 11) % len(ns)]))), "\t: ", " \n", None
    for n in range(1, 10):
        yield one("Features", "K" * n), "\t: ", "\n", None
        yield one("Features", "aes " + "K" * n + " crc32"), "\t: ", "\n", None
    if arch == "armv7":
        for k, (f, flag) in spec.CACHE.items():
            for v in ("D", "DD", "DDD", "DDDD", "3276D", "1048576", "01D", "00"):
                yield one(k, v), "\t: ", "\n", None
            yield one(k, "DO"), "\t: ", "\n", None
    for sep in ("\t\t: ", ":", " : ", "\t:  ", " \t : "):
        yield one("CPU part", "0xHHH"), sep, "\n", None
    for end in (" \n", "\n\n", "\nBogoMIPS : 38.40\n", "\njunk\n", "\n:\n", "\n : D\n", "\nx:\n", "\nCPU parts : 0x1\n",
                "\nProcessor : 3\n", "\nSerial : 0x12\n", "\ncpu part : 0x1\n"):
        yield one("CPU part", "0xHHH"), "\t: ", end, None
    yield [("processor", "D"), ("CPU implementer", "0xHH"), ("CPU part", "0xHHH"), ("CPU variant", "0xH"), ("CPU revision", "D")], "\t: ", "\n", None
    yield [("processor", "D"), ("CPU part", "0xHH"), ("processor", "D"), ("CPU part", "0xHH")], "\t: ", "\n", None
    yield [("processor", "D"), ("CPU variant", "0xH"), ("processor", "D"), ("CPU revision", "D")], "\t: ", "\n", None
    yield [("processor", "D"), ("processor", "D"), ("CPU implementer", "0xHH")], "\t: ", "\n", None
    yield [("CPU implementer", "0xHH")], "\t: ", "\n", None
    for p in ("10D", "65536", "4294967295"):
        yield [("processor", p), ("CPU part", "0xHHH")], "\t: ", "\n", None
    for p in (None, [3, 27], [14, 16]):
        yield one("CPU part", "0xHHH"), "\t: ", "\n$", p
    yield [("processor", "D"), ("Features", "aes crc32")], "\t: ", "\n$", None
    yield [("Hardware", "KKzz")], "\t: ", "\n$", None
    yield [("processor", "DO"), ("CPU variant", "0xH")], "\t: ", "\n", None
    for n in (6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17):
        # any key of this length with a number for a value
        yield [("processor", "1"), ("K" * n, "0x5")], "\t: ", "\n", None
    ln = one("CPU part", "0xHHH")
    size = sum(len(k) + len(v) + 4 for k, v in ln)
    for k in range(1, size):
        yield ln, "\t: ", "\n", [k, size - k]
    yield [("Features", "x" * 600), ("Features", "aes " + "x" * 200 + " sha1 " + "x" * 490 + " crc32"), ("processor", "D"), ("CPU part", "0xHHH")], "\t: ", "\n", None
    # a line that fills the buffer, in one piece and in many
    for n in (510, 513, 800, LINE - 1, LINE):
        f = ("Features", "x" * (n - len("Features\t:  aes")) + " aes")
        yield [f, ("processor", "D"), ("CPU part", "0xHHH")], "\t: ", "\n", None
        yield [("processor", "D"), f, ("CPU part", "0xHHH")], "\t: ", "\n", None
        yield [("processor", "D"), f, f, ("CPU part", "0xHHH")], "\t: ", "\n", None
        yield [("processor", "D"), f, ("CPU part", "0xHHH")], "\t: ", "\n", [300] * 9
    for k in range(0, 28, 3):
        # across the end of the buffer
        yield [("Features", "x" * 400), ("Features", "x" * (550 + k)), ("processor", "D"), ("CPU part", "0xHHH")], "\t: ", "\n", None
    for n in (1, 5, 62, 63, 64, 65, 70):
        yield [("Hardware", "K" * min(n, 3) + "z" * (n - 3))], "\t: ", "\n", None
    for n in (1, 4, 7, 8, 9, 10, 12):
        yield [("Revision", "K" * min(n, 3) + "z" * (n - 3))], "\t: ", "\n", None
    yield [("Hardware", "KK"), ("Revision", "KK"), ("Hardware", "K")], "\t: ", "\n", None
    yield [("processor", "D")], "\t: ", "\n", None


def digits(v, chars):
    n = 0
    while n < len(v) and v[n] in chars:
        n += 1
    return n


def job(a):
    name, cfg, part = a
    m = module(cfg, [ROOT])
    fn = m.functions.get(ROOT)
    if fn is None or "".join("p" if x.ty.kind == "ptr" else "i" for x in fn.args) != "ppip":
        return [("root", None, SRC, "function not found", name)]
    V = {f: build.macro(cfg, API, "CPUINFO_ARM_LINUX_VALID_" + f) for f in
         ["PART", "IMPLEMENTER", "VARIANT", "REVISION", "ARCHITECTURE", "PROCESSOR", "FEATURES"] +
         ([f for _, f in spec.CACHE.values()] if name == "armv7" else [])}
    LET = {f: build.macro(cfg, API, "CPUINFO_ARM_LINUX_ARCH_" + f) for f in "TEJ"} if name == "armv7" else {}
    room = {k: build.macro(cfg, API, f"CPUINFO_{k.upper()}_VALUE_MAX") for k in ("Hardware", "Revision")}
    fs = m.di.bytefields(STRUCT)
    used = ["midr", "flags", "features", "features2", "architecture_version"]
    if name == "armv7":
        used += ["architecture_flags"] + ["proc_cpuinfo_cache." + f for f, _ in spec.CACHE.values()]
    if not set(used) <= set(fs) or None in list(V.values()) + list(LET.values()) + list(room.values()):
        return [("root", None, SRC, "record of a processor not recognised", name)]
    stride = -(-max(o + n for o, n in fs.values()) // 8) * 8
    where = next((i.loc() for i in fn.insts if i.line), SRC)
    out = []

    def one(lines, sep, end, pieces):
        vf = StrFlow(m)
        b = vf.b
        # a byte that is no part of a number, of the base the number has
        L = Lines(vf, lines, sep, end, b"abcdefABCDEF" if any(v.startswith("0x") for _, v in lines) else b"")
        t = L.text
        eq = lambda j, ch: vf.eq(t.data[j], vf.const(ord(ch), 8))
        pre = t.pre
        is8 = lambda j, s: b.OR(eq(j, s[0]), eq(j, s[1]))
        for (k, v), (k0, k1, v0, v1) in zip(lines, L.pos):
            if k == "CPU revision" and v == "1D":
                pre = b.AND(pre, vf.ult(t.val[v0 + 1], vf.const(6, len(t.val[v0 + 1]))))
            if k == "CPU architecture":
                for j in range(v0, v1):
                    if v[j - v0] == "O":
                        # no letter that has a meaning
                        for x in "TEJ":
                            pre = b.AND(pre, b.NOT(eq(j, x)))
            if k in ("Features", "Hardware", "Revision"):
                for j in range(v0, v1):
                    if v[j - v0] == "K":
                        pre = b.AND(pre, b.NOT(is8(j, " \t")))
        f = File(t.data, pieces)
        vf.call_hook = f.hook
        vf.track = lambda x: x in f.texts
        base = [("argp", ROOT, k) for k in range(4)]
        R = Records(vf, base[3], stride, MAX, {k: fs[k] for k in used})
        # the records start out cleared
        if any(k == "CPU architecture" for k, _ in lines) and name == "armv7":
            for k in range(MAX):
                for bit in R.rec[k]["architecture_flags"]:
                    pre = b.AND(pre, b.NOT(bit))
        texts = {k: [vf.byte(base[n], j) for j in range(-2, room[k] + 4)] for n, k in enumerate(("Hardware", "Revision"))}
        want = {k: {j: texts[k][j + 2] for j in range(-2, room[k] + 4) if j < 0 or j >= room[k]} for k in texts}
        for k in want:
            want[k][0] = vf.const(0, 8)
        r, g = vf.run(fn, [Ptr([(1, base[0], 0)]), Ptr([(1, base[1], 0)]), vf.const(MAX, 32), Ptr([(1, base[3], 0)])], guard=pre)
        show = " | ".join(f"{k}{sep}{v if len(v) < 20 else v[:4] + '...' + str(len(v))}" for k, v in lines).replace("\t", " ")
        key = f"'{show}'" + (f" end {end!r}" if end != "\n" else "") + (f" read as {pieces}" if pieces else "")
        if lines == [("processor", "D")]:
            open_name(vf, f, "/proc/cpuinfo", None, out, key, name, SRC)
        safety(vf, f, key, out, name, SRC)
        for (k, v), (k0, k1, v0, v1) in zip(lines, L.pos):
            sym = set(k) == {"K"}

            def cond(kk):
                if not sym:
                    return 1 if k == kk else 0
                if len(k) < len(kk):
                    return 0
                c = 1
                for j in range(len(k)):
                    c = b.AND(c, eq(k0 + j, kk[j]) if j < len(kk) else is8(k0 + j, " \t"))
                return c

            def flag(c, *names):
                for n in names:
                    R.set_bits("flags", V[n], c)

            for kk, (lo, w, n) in spec.MIDR.items():
                c = cond(kk)
                h = v[2:]
                if c and v[:2] == "0x" and 1 <= len(h) <= n and digits(h, "H0123456789") == len(h):
                    R.set_field("midr", lo, w, t.number(v0 + 2, v1, 16), c)
                    flag(c, kk.split()[1].upper().replace("TOR", "TER"), "PROCESSOR")
            c = cond("CPU revision")
            if c and v.isdigit() and int(v) > 15:
                # no value of the field; it may be cut or ignored
                R.loose["midr"] = 15 << spec.REVISION[0]
                R.loose["flags"] = V["REVISION"] | V["PROCESSOR"]
            elif c and digits(v, "D0123456789") == len(v):
                R.set_field("midr", *spec.REVISION, t.number(v0, v1), c)
                flag(c, "REVISION", "PROCESSOR")
            c = cond("CPU architecture")
            if c:
                q = digits(v, "D0123456789")
                if v == "AArch64" or q:
                    letters = v[q:] if v != "AArch64" else ""
                    n = t.number(v0, v0 + q) if v != "AArch64" else vf.const(8, 32)
                    # zero is not a version
                    z = vf.eq(n, vf.const(0, 32))
                    if z:
                        R.loose["midr"] = 15 << spec.ARCHITECTURE[0]
                    c = b.AND(c, b.NOT(z))
                    R.set("architecture_version", n, c)
                    flag(c, "ARCHITECTURE", "PROCESSOR")
                    for x in letters:
                        if x in LET:
                            R.set_bits("architecture_flags", LET[x], c)
                    fld = vf.const(15, 4)
                    for ver in range(10):
                        fld = vf.w_ite(vf.eq(n, vf.const(ver, 32)), vf.const(spec.midr_architecture(name, ver, letters), 4), fld)
                    R.set_field("midr", *spec.ARCHITECTURE, fld, c)
                else:
                    # not a version; the field of the main ID register is not defined then
                    R.loose["midr"] = 15 << spec.ARCHITECTURE[0]
            c = cond("Features")
            if c:
                flag(c, "FEATURES", "PROCESSOR")
                j = v0
                for tok in v.split(" "):
                    for n, (w, bit) in spec.FEATURES[name].items():
                        if len(n) == len(tok):
                            d = c
                            for q in range(len(n)):
                                d = b.AND(d, eq(j + q, n[q]))
                            if d:
                                R.set_bits("features" if w == 1 else "features2", 1 << bit, d)
                    j += len(tok) + 1
            if name == "armv7":
                for kk, (fld, fl) in spec.CACHE.items():
                    c = cond(kk)
                    if c and digits(v, "D0123456789") == len(v):
                        n = t.number(v0, v1)
                        good = b.NOT(vf.eq(n, vf.const(0, 32)))
                        if "LINE" in fl:
                            good = 0
                            for x in spec.LINES:
                                good = b.OR(good, vf.eq(n, vf.const(x, 32)))
                        c = b.AND(c, good)
                        R.set("proc_cpuinfo_cache." + fld, n, c)
                        flag(c, fl, "PROCESSOR")
            for kk in room:
                c = cond(kk)
                if c == 1:
                    n = min(v1 - v0, room[kk])
                    for j in list(want[kk]):
                        if 0 <= j < room[kk]:
                            del want[kk][j]
                    for j in range(n):
                        want[kk][j] = t.data[v0 + j]
                    if n < room[kk]:
                        want[kk][n] = vf.const(0, 8)
                elif c:
                    for j in list(want[kk]):
                        if 0 <= j < room[kk]:
                            del want[kk][j]
            c = cond("processor")
            if c:
                n = digits(v, "D0123456789")
                R.cur = vf.w_ite(c, t.number(v0, v0 + n), R.cur)
                R.set_bits("flags", V["PROCESSOR"], c)
        ok, what = R.compare(pre)
        out.append((key, ok, where, f"the file does not give the {what} that it should", name))
        for n, k in enumerate(room):
            vs = True
            bad = None
            for j, w in sorted(want[k].items()):
                x = agree(vf, pre, vf.byte(base[n], j), w)
                if x is False and bad is None:
                    bad = j
                vs = both(vs, x)
            out.append((key + f": {k}", vs, where, f"byte {bad} of the {k} text ({room[k]} bytes) is not what it should be", name))
        if r is not None:
            out.append((key + ": status", vf.decide(b.AND(b.AND(pre, g), b.NOT(r[0])), pure)[0], where, "a readable file is reported as a failure", name))

    return each(one, part, out, name, SRC)


def main():
    ck = check.Check(
        "P03", "other",
        technique="Boolean-function value flow through the file reader and line parser, iteration by iteration, over texts with symbolic "
                  "digits, keys, feature names and split points",
        rule="the record of each processor gets exactly the identification, architecture, features and cache numbers of its own section, "
             "nothing else changes, the hardware and revision texts stay within their buffers, and nothing is read beyond the text",
        assumptions=["lines up to 1023 characters; numbers of up to four free digits, longer ones with one or none", "feature names up to nine characters"])
    jobs = []
    for name in ("aarch64", "armv7"):
        cfg = build.LINUX[name].with_level(5)
        build.raw(cfg)
        fl = list(files(name))
        jobs += [(name, cfg, fl[k::8]) for k in range(8)]
    for r in pstream(job, jobs, ck):
        for o in r:
            ck.obligation(*o)
    ck.finish(100)


if __name__ == "__main__":
    check.main(main)
