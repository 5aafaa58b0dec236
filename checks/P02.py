import itertools, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check
from vf.strflow import File, StrFlow, Text, agree, both, each, module, open_name, pure, safety, splits
from vf.util import pstream
from vf.vflow import Ptr

SRC = "src/linux/processors.c"
DIR = "/sys/devices/system/cpu/"
# function -> (file, kind of result)
READERS = {
    "cpuinfo_linux_get_max_processors_count": (DIR + "kernel_max", "count"),
    "cpuinfo_linux_get_processor_cur_frequency": (DIR + "cpu%u/cpufreq/cpuinfo_cur_freq", "number"),
    "cpuinfo_linux_get_processor_max_frequency": (DIR + "cpu%u/cpufreq/cpuinfo_max_freq", "number"),
    "cpuinfo_linux_get_processor_min_frequency": (DIR + "cpu%u/cpufreq/cpuinfo_min_freq", "number"),
    "cpuinfo_linux_get_processor_core_id": (DIR + "cpu%u/topology/core_id", "status"),
    "cpuinfo_linux_get_processor_package_id": (DIR + "cpu%u/topology/physical_package_id", "status"),
}
FULL = 3
LONGER = ("DDDD", "DDDDW", "DDDDD", "DDDDDW", "DDDDWWW", "DDDD-DD", "DDDOOO", "D" + "W" * 29, "D" + "W" * 30, "D" + "W" * 31, "D" + "W" * 40)
SIZE = 32                       # a file of this size or more is not accepted


def reader(a):
    name, cfg, fname = a
    m = module(cfg, [fname])
    fn = m.functions.get(fname)
    if fn is None or fn.decl:
        return []
    path, kind = READERS[fname]
    kinds = {"count": "", "number": "i", "status": "ip"}[kind]
    if "".join("p" if x.ty.kind == "ptr" else "i" for x in fn.args) != kinds:
        return [(fname, None, SRC, "parameters not recognised", name)]
    where = next((i.loc() for i in fn.insts if i.line), SRC)
    out = []
    todo = []
    for n in range(FULL + 1):
        for p in itertools.product("DWO", repeat=n):
            todo += [("".join(p), s) for s in splits(n)]
    todo += [(t, s) for t in LONGER for s in (None, [1, len(t) - 1], [len(t) - 1, 1])]

    def one(tpl, pieces):
        vf = StrFlow(m)
        b = vf.b
        t = Text(vf, tpl)
        f = File(t.data, pieces)
        vf.call_hook = f.hook
        vf.track = lambda x: x in f.texts
        proc = vf.opaque(("arg", "processor"), 32)
        P = ("argp", fname, 1)
        args = {"count": [], "number": [proc], "status": [proc, Ptr([(1, P, 0)])]}[kind]
        r, g = vf.run(fn, args, guard=t.pre)
        key = f"{fname[18:]} '{tpl if len(tpl) < 12 else tpl[:4] + '...' + str(len(tpl))}' read as {pieces or 'much as fits'}"
        if tpl == "D":
            open_name(vf, f, path, proc if kind != "count" else None, out, key, name, SRC)
        safety(vf, f, key, out, name, SRC)
        k = 0
        while k < len(tpl) and tpl[k] == "D":
            k += 1
        good = 1 if k and len(tpl) < SIZE else 0
        if k and len(tpl) >= SIZE:
            return                      # nothing is promised for files that are too long
        n = t.number(0, k)
        asked = 0
        for c, p, i in f.opened:
            asked = b.OR(asked, c)
        if kind == "count":
            # the limit of the platform where the file cannot be read
            if good:
                ok = agree(vf, g, r, vf.add(n, vf.const(1, 32)))
            else:
                ok = vf.decide(b.AND(g, vf.eq(r, vf.const(0, 32))), pure)[0]
        elif kind == "number":
            ok = agree(vf, asked, r, n if good else vf.const(0, 32))
        else:
            ok = agree(vf, asked, r[:1], (good,))
            if good:
                ok = both(ok, agree(vf, asked, sum((vf.byte(P, j) for j in range(4)), ()), n))
        out.append((key, ok, where, "the result is not the number in the file", name))

    return each(one, todo, out, name, SRC)


def main():
    ck = check.Check(
        "P02", "other",
        technique="Boolean-function value flow through the file reader and number parser, iteration by iteration, over all short texts with "
                  "symbolic digits and all ways of receiving them in pieces",
        rule="each reader opens the documented file of the processor asked for and returns exactly the decimal number at its start, or the "
             "documented failure value if there is none; nothing is read beyond the text or written beyond the buffer",
        assumptions=["numbers up to five digits"])
    jobs = []
    for name, cfg in build.LINUX.items():
        cfg = cfg.with_level(5)
        build.raw(cfg)
        jobs += [(name, cfg, f) for f in READERS]
    for r in pstream(reader, jobs, ck):
        for o in r:
            ck.obligation(*o)
    ck.finish(2000)


if __name__ == "__main__":
    check.main(main)
