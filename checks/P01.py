import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from spec import cpulist as spec
from vf import build, check
from vf.strflow import File, StrFlow, Text, each, module, open_name, pure, safety, splits
from vf.util import pstream
from vf.vflow import Ptr

LIST = "cpuinfo_linux_parse_cpulist"
SRC = "src/linux/cpulist.c"
USERS = "src/linux/processors.c"
FULL = 4                        # all texts up to this length, in all ways of splitting them into pieces
LONGER = ("DDD-DDD", "DDDDD", "DD,DD-DD,DW", "D-D,D-D,D", "DD-DDD,DDDW", "WD-D,WD-DWW", "D-DD,DDD-DD,D-DW", "D,D,D,D,D,D,D,DW")
FILES = {"cpuinfo_linux_get_max_possible_processor": "/sys/devices/system/cpu/possible",
         "cpuinfo_linux_get_max_present_processor": "/sys/devices/system/cpu/present",
         "cpuinfo_linux_detect_possible_processors": "/sys/devices/system/cpu/possible",
         "cpuinfo_linux_detect_present_processors": "/sys/devices/system/cpu/present",
         "cpuinfo_linux_detect_core_cpus": "/sys/devices/system/cpu/cpu%u/topology/core_cpus_list",
         "cpuinfo_linux_detect_core_siblings": "/sys/devices/system/cpu/cpu%u/topology/core_siblings_list",
         "cpuinfo_linux_detect_thread_siblings": "/sys/devices/system/cpu/cpu%u/topology/thread_siblings_list",
         "cpuinfo_linux_detect_cluster_cpus": "/sys/devices/system/cpu/cpu%u/topology/cluster_cpus_list",
         "cpuinfo_linux_detect_package_cpus": "/sys/devices/system/cpu/cpu%u/topology/package_cpus_list"}


def expected(vf, t):
    """the ranges that the text lists, with their conditions, and whether the whole text is well formed; None if nothing is
    promised"""
    out, good = [], 1
    for e in spec.entries(t.tpl):
        if e[0] == "any":
            return None
        if e[0] == "none":
            good = 0
        elif e[0] == "one":
            n = t.number(*e[1])
            out.append((n, n, 1))
        else:
            lo, hi = t.number(*e[1]), t.number(*e[2])
            c = vf.b.NOT(vf.ult(hi, lo))
            out.append((lo, hi, c))
            good = vf.b.AND(good, c)
    return out, good


def listed(a):
    """calls of the callback for one text"""
    name, cfg, part = a
    m = module(cfg, [LIST])
    fn = m.functions.get(LIST)
    if fn is None or "".join("p" if x.ty.kind == "ptr" else "i" for x in fn.args) != "ppp":
        return [("root", None, SRC, "parameters not recognised", name)]
    out = []

    def one(tpl, pieces):
        vf = StrFlow(m)
        b = vf.b
        vf.record = {"indirect"}
        t = Text(vf, tpl)
        f = File(t.data, pieces)
        vf.call_hook = f.hook
        vf.track = lambda x: x in f.texts
        r, g = vf.run(fn, guard=t.pre)
        shown = tpl if len(tpl) < 40 else tpl[:8] + '...' + tpl[-16:]
        key = f"'{shown}' read as {'+'.join(map(str, pieces)) if pieces is not None else 'much as fits'}"
        safety(vf, f, key, out, name, SRC)
        ex = expected(vf, t)
        if ex is None:
            return
        want, good = ex
        ok, detail, where = True, "", SRC
        left = [b.AND(t.pre, c) for _, _, c in want]
        k = 0
        status = b.AND(good, t.pre)
        for e in vf.events:
            while k < len(want) and left[k] == 0:
                k += 1
            where = e.inst.loc()
            if len(e.args) != 3 or not all(isinstance(x, tuple) and len(x) == 32 for x in e.args[:2]) or e.result is None:
                ok, detail = None, "arguments of the callback not understood"
                break
            # a later entry may be the one meant where this one lists nothing
            j = k
            while j < len(want) and b.AND(e.guard, left[j]) == 0:
                j += 1
            if j == len(want):
                ok, detail = vf.decide(e.guard, pure)[0], "more ranges are reported than the text lists"
                break
            extra = b.AND(e.guard, b.NOT(left[j]))
            d = extra
            for x, y in zip(e.args[0] + e.args[1], want[j][0] + vf.add(want[j][1], vf.const(1, 32))):
                d = b.OR(d, b.AND(e.guard, b.XOR(x, y)))
            ok = vf.decide(d, pure)[0]
            if ok is not True:
                detail = f"a range is reported with other bounds than the text lists (entry {j + 1})"
                break
            left[j] = b.AND(left[j], b.NOT(e.guard))
            status = b.AND(status, b.OR(b.NOT(e.guard), e.result[0]))
        else:
            rest = 0
            for x in left:
                rest = b.OR(rest, x)
            ok = vf.decide(rest, pure)[0]
            detail = "a range that the text lists is not reported"
        out.append((f"{key}: ranges", ok, where, detail, name))
        if ok and isinstance(r, tuple):
            d = b.AND(g, b.XOR(r[0], status))
            out.append((f"{key}: status", vf.decide(d, pure)[0], SRC, "the result does not tell whether every entry was read", name))

    return each(one, part, out, name, SRC)


def users(a):
    """what the readers of the lists make of them"""
    name, cfg, fname = a
    m = module(cfg, [fname])
    fn = m.functions.get(fname)
    out = []
    if fn is None or fn.decl:
        return out                      # not part of this target
    sib = "%u" in FILES[fname]
    flags = "detect_" in fname and not sib
    kinds = "ipii" if flags else "iipp" if sib else "i"
    if "".join("p" if x.ty.kind == "ptr" else "i" for x in fn.args) != kinds:
        return [(fname, None, USERS, "parameters not recognised", name)]

    def one(tpl):
        vf = StrFlow(m)
        b = vf.b
        vf.record = {"indirect"}
        t = Text(vf, tpl)
        f = File(t.data)
        vf.call_hook = f.hook
        vf.track = lambda x: x in f.texts
        ex, good = expected(vf, t)
        key = f"{fname[14:]} '{tpl}'"
        limit = 6
        P = ("argp", fname, 1)
        proc = vf.opaque(("arg", "processor"), 32)
        if flags:
            args = [vf.const(limit, 32), Ptr([(1, P, 0)]), vf.const(8, 32), vf.const(0x40, 32)]
            init = [sum((vf.byte(P, 8 * k + j) for j in range(4)), ()) for k in range(-1, 12)]
        elif sib:
            args = [vf.const(limit, 32), proc, Ptr([(1, ("argp", fname, 2), 0)]), Ptr([(1, ("argp", fname, 3), 0)])]
        else:
            args = [vf.const(limit, 32)]
        r, g = vf.run(fn, args, guard=t.pre)
        where = next((i.loc() for i in fn.insts if i.line), USERS)
        if tpl == "D":
            open_name(vf, f, FILES[fname], proc if sib else None, out, key, name, USERS)
        safety(vf, f, key, out, name, SRC)
        if sib:
            reached = 0
            for c, p, i in f.opened:
                reached = b.OR(reached, c)
            left = [b.AND(reached, c) for _, _, c in ex]
            ok, detail, wh = True, "", where
            for e in vf.events:
                wh = e.inst.loc()
                if len(e.args) != 4 or not all(isinstance(x, tuple) and len(x) == 32 for x in e.args[:3]):
                    ok, detail = None, "arguments of the callback not understood"
                    break
                d = b.NOT(vf.eq(e.args[0], proc))
                m0 = 0
                for j, (lo, hi, c) in enumerate(ex):
                    h = b.AND(e.guard, left[j])
                    if not h:
                        continue
                    end = vf.add(hi, vf.const(1, 32))
                    end = vf.w_ite(vf.ult(vf.const(limit, 32), end), vf.const(limit, 32), end)
                    # ranges that begin above the limit are empty either way
                    over = b.NOT(vf.ult(lo, vf.const(limit, 32)))
                    df = b.AND(b.NOT(over), b.OR(b.NOT(vf.eq(e.args[1], lo)), b.NOT(vf.eq(e.args[2], end))))
                    df = b.OR(df, b.AND(over, vf.ult(e.args[1], e.args[2])))
                    d = b.OR(b.AND(b.NOT(h), d), b.AND(h, b.OR(d, df)))
                    left[j] = b.AND(left[j], b.NOT(h))
                    m0 = b.OR(m0, h)
                    break
                d = b.AND(e.guard, b.OR(d, b.NOT(m0)))
                ok = vf.decide(d, pure)[0]
                if ok is not True:
                    detail = "siblings reported differ from the listed processors below the limit"
                    break
            else:
                rest = 0
                for j, x in enumerate(left):
                    rest = b.OR(rest, b.AND(x, vf.ult(ex[j][0], vf.const(limit, 32))))
                ok = vf.decide(rest, pure)[0]
                detail = "listed siblings are not reported"
            out.append((key, ok, wh, detail, name))
        elif flags:
            d = 0
            for k in range(-1, 12):
                on = 0
                if 0 <= k < limit:
                    w = vf.const(k, 32)
                    for lo, hi, c in ex:
                        on = b.OR(on, b.AND(c, b.AND(b.NOT(vf.ult(w, lo)), b.NOT(vf.ult(hi, w)))))
                want = list(init[k + 1])
                want[6] = b.OR(want[6], on)
                got = sum((vf.byte(P, 8 * k + j) for j in range(4)), ())
                for x, y in zip(got, want):
                    d = b.OR(d, b.AND(g, b.XOR(x, y)))
            out.append((key, vf.decide(d, pure)[0], where, "the flag is not set for exactly the listed processors below the limit", name))
            d = b.AND(g, b.XOR(r[0], good))
            out.append((key + ": status", vf.decide(d, pure)[0], where, "the result does not tell whether every entry was read", name))
        else:
            top = vf.const(0, 32)
            for lo, hi, c in ex:
                top = vf.w_ite(b.AND(c, vf.ult(top, hi)), hi, top)
            top = vf.w_ite(vf.ult(top, vf.const(limit, 32)), top, vf.const(limit - 1, 32))
            top = vf.w_ite(good, top, vf.const(0xFFFFFFFF, 32))
            d = b.AND(g, b.NOT(vf.eq(r, top)))
            out.append((key, vf.decide(d, pure)[0], where, "the result is not the highest listed processor below the limit", name))

    return each(one, [(x,) for x in ("D", "D-D", "D,D", "DD", "D,D-D", "O", "DW")], out, name, USERS)


def job(a):
    return a[0](a[1])


def main():
    ck = check.Check(
        "P01", "other",
        technique="Boolean-function value flow through the list reader, iteration by iteration, over all texts up to a length, character "
                  "class by character class with symbolic digits, and all ways of receiving them in pieces",
        rule="for every well-formed list the callback gets exactly the listed ranges in order, a malformed entry is reported as a failure, "
             "nothing is read beyond the text or into memory beyond the buffer, and the readers of the lists use the documented file and set, "
             "bound and forward exactly the listed processors",
        assumptions=[f"texts up to {FULL} characters and some longer forms; numbers up to five digits"])
    jobs, last = [], []
    for name, cfg in build.LINUX.items():
        cfg = cfg.with_level(5)
        build.raw(cfg)
        todo, long = [], []
        full = FULL if name in ("x86_64", "aarch64") else FULL - 1
        for n in range(full + 1):
            for p in itertools.product("D-,WO", repeat=n):
                t = "".join(p)
                for s in (splits(n) if full == FULL else [None]):
                    todo.append((t, s))
        for t in LONGER:
            for s in [None] + [[k, len(t) - k] for k in range(1, len(t), 2)]:
                todo.append((t, s))
        # entries with much white space, received in pieces
        for t, s in (("D," + "W" * 20 + "DD-DD,D", [25, 5]), ("D," + "W" * 20 + "DD-DD,D", [26, 4]), ("DD," + "W" * 40 + "DDD,D", [45, 3]),
                     ("W" * 40 + "DD-DD,D", [30, 12, 5]), ("W" * 40 + "DD-DD,D", [41, 6]), ("D," + "W" * 90 + "D-D,DW", [60, 33, 6]),
                     ("W" * 200 + "D-D,DD", [130, 60, 16]), ("W" * 200 + "D-D,DD", [190, 10, 5, 1]), ("D" + "W" * 230 + ",D-D", [120, 110, 5]),
                     ("D," + "W" * 245 + "D,DD", [100, 100, 46, 2, 3])):
            long.append((t, s))
        # longer than the buffer
        for t in ["D," + "W" * (250 - k) + ",DDD-DD,D,DDDW" for k in range(12)] + ["DD-DD,DDD,WWD," * 40 + "DD"]:
            long.append((t, None))
        for k in range(8):
            jobs.append((listed, (name, cfg, todo[k::8])))
        for k in range(4):
            last.append((listed, (name, cfg, long[k::4])))
        for f in FILES:
            jobs.append((users, (name, cfg, f)))
    jobs += last
    for r in pstream(job, jobs, ck):
        for o in r:
            ck.obligation(*o)
    ck.finish(5000)


if __name__ == "__main__":
    check.main(main)
