"""Provenance of the published maximum cache size."""
from . import build, publish
from .ir import Const, Inst
from .prov import origins, root
from .util import callee, strip

LEVELS = ("l1i", "l1d", "l2", "l3", "l4")
QUERY = "cpuinfo_get_max_cache_size"


def after(i):
    """instructions that may run after i"""
    blk = i.bb
    k = blk.insts.index(i)
    yield from blk.insts[k + 1:]
    seen, todo = set(), list(blk.succs)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        yield from b.insts
        todo += b.succs


def nowhere(idx, off):
    """False if the place cannot be the first one whatever the counts are (two or more), None if it is not known"""
    def ev(v, n):
        v = strip(v)
        if isinstance(v, Const):
            return v.val if v.kind == "int" else None
        if isinstance(v, Inst) and v.op in ("add", "sub", "mul", "shl"):
            x, y = ev(v.ops[0], n), ev(v.ops[1], n)
            if x is None or y is None:
                return None
            r = x + y if v.op == "add" else x - y if v.op == "sub" else x * y if v.op == "mul" else x << y
            return r & ((1 << v.ty.bits) - 1)
        if isinstance(v, Inst) and v.op in ("phi", "load", "call"):
            return n
        return None

    if all(isinstance(strip(v), Inst) and strip(v).op in ("phi", "load", "call") for v, _ in idx):
        return None                     # may be anything
    for n in (2, 3, 5):
        vs = [ev(v, n) for v, _ in idx]
        if None in vs or off + sum(v * k for v, (_, k) in zip(vs, idx)) == 0:
            return None
    return False


def published(name, MAX, SRC):
    """the published maximum is computed by MAX from the first listed processor, when its caches are complete"""
    cfg = build.LINUX[name]
    M = publish.Model(cfg, noinline=[MAX])
    out = []
    fs = M.m.di.bytefields("cpuinfo_processor")
    cs = [fs["cache." + lv][0] for lv in LEVELS]
    lo, hi, step = min(cs), max(cs), max(o + n for o, n in fs.values())
    q = M._ret(M.m.functions[QUERY])
    plist = next((k[1] for k in M.kind_slots() if k[0] == "processors"), None)
    if not isinstance(q, tuple) or q[0] == "object" or not isinstance(plist, tuple) or plist[0] == "object":
        return [("published", None, SRC, "query not understood", name)]
    for fl, st in M.reaching().items():
        for s in st.get(q, ()):
            if s is None:
                out.append(("published", False, fl.loc(), "no maximum cache size is stored", name))
                continue
            vals = [v for v in origins(s.ops[0])] if s.op == "store" else [None]
            for v in vals:
                if not (isinstance(v, Inst) and v.op == "call" and callee(v) == MAX):
                    ok = False if isinstance(v, Const) and v.kind == "int" else None
                    out.append(("published", ok, s.loc(), "the maximum cache size that is stored is not the computed one", name))
                    continue
                base, off, idx = root(v.args[0])
                lists = {o for t in st.get(plist, ()) if t is not None and t.op == "store" for o in origins(t.ops[0])}
                mine = set(origins(base))
                ok = None
                if mine and mine <= lists:
                    ok = off == 0 if not idx else nowhere(idx, off)
                out.append(("first processor", ok, v.loc(), "the maximum cache size is not that of the first listed processor", name))
                late = None
                for i in after(v):
                    if i.op == "store" and mine:
                        b2, o2, x2 = root(i.ops[1])
                        if set(origins(b2)) <= mine and lo <= o2 % step <= hi and i.ops[0].ty.kind == "ptr":
                            late = i
                out.append(("complete caches", late is None, (late or v).loc(),
                            "caches are assigned to a processor after the maximum cache size was computed", name))
    return out
