"""The publication step of initialization: the detection function, the completion flag and the published result slots."""
from . import api, build, util
from .ir import Arg, Const, Function, Global, Inst
from .prov import root, origins

# kinds of objects whose list stays empty because the backend does not detect them
ABSENT = {"arm": {"l4_caches"}, "riscv": {"l1i_caches", "l1d_caches", "l2_caches", "l3_caches", "l4_caches"}, "x86": set()}


class Model:
    def __init__(self, cfg, post="function(sroa,simplifycfg,early-cse,newgvn,jump-threading,simplifycfg)", noinline=()):
        self.cfg = cfg
        qs = [q[0] for q in api.queries(cfg)]
        self.qs = qs
        self.m = m = build.load(build.inlined(cfg, qs + ["cpuinfo_initialize"], post=post, noinline=noinline), cfg)
        fl = util.init_flag(cfg, m)
        if len(fl) != 1:
            raise RuntimeError("completion flag not identified")
        self.flag = m.globals[next(iter(fl))]
        self.flagstores = []
        for f in m.functions.values():
            for i in f.insts:
                if i.op in ("store", "atomicrmw", "cmpxchg") and root(i.ops[1 if i.op == "store" else 0])[0] is self.flag:
                    self.flagstores.append(i)
        fns = {i.bb.fn for i in self.flagstores}
        if len(fns) != 1:
            raise RuntimeError("the completion flag is written by %d functions" % len(fns))
        self.det = fns.pop()
        self.slots = self._slots()

    def _slots(self):
        """{global name: set of (offset, size)} read by the queries on returning paths"""
        out = {}
        for q in self.qs:
            fn = self.m.functions[q]
            good = util.reaches_return(fn)
            for bb in fn.blocks:
                if bb not in good:
                    continue
                for i in bb.insts:
                    if i.op == "load":
                        b, off, idx = root(i.ops[0])
                        if isinstance(b, Global) and not b.const and b is not self.flag:
                            out.setdefault(b.name, set()).add((off, i.size) if not idx else (0, b.valty.size))
                    for o in i.ops:
                        # an address that is handed out
                        if i.op in ("ret", "phi", "select"):
                            b, off, idx = root(o)
                            if isinstance(b, Global) and not b.const:
                                out.setdefault(b.name, set()).add((0, b.valty.size))
        return out

    def kind_slots(self):
        """[(kind, list slot or ('object', global), count slot or int)] through the list and count accessors"""
        m = self.m
        res = []
        names = set(self.qs)
        for q in sorted(self.qs):
            if not q.endswith("_count") or q[:-6] not in names:
                continue
            lst, cnt = m.functions[q[:-6]], m.functions[q]
            res.append((q[len("cpuinfo_get_"):-6], self._ret(lst), self._ret(cnt)))
        return res

    def _ret(self, fn):
        good = util.reaches_return(fn)
        vals = {o for bb in good if bb.term.op == "ret" for o in origins(bb.term.ops[0])}
        if len(vals) != 1:
            return None
        v = vals.pop()
        if isinstance(v, Const) and v.kind == "int":
            return v.val
        if isinstance(v, Inst) and v.op == "load":
            b, off, idx = root(v.ops[0])
            if isinstance(b, Global) and not idx:
                return (b.name, off)
        b, off, idx = root(v)
        if isinstance(b, Global):
            return ("object", b)
        return None

    def reaching(self):
        """per flag store: {(global, offset): set of reaching stores, None = initial value}"""
        fn = self.det
        names = set(self.slots)
        gen = {}
        for bb in fn.blocks:
            for i in bb.insts:
                if i.op == "store":
                    b, off, idx = root(i.ops[1])
                    if isinstance(b, Global) and b.name in names:
                        gen.setdefault(bb, []).append((i, b.name, None if idx else off, i.size))
                elif i.op == "call" and (util.callee(i) or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    b, off, idx = root(i.args[0])
                    if isinstance(b, Global) and b.name in names:
                        n = i.args[2].val if isinstance(i.args[2], Const) else None
                        gen.setdefault(bb, []).append((i, b.name, None if idx else off, n))
        cells = {}
        for n, rs in self.slots.items():
            for off, size in rs:
                for k in range(off, off + size):
                    cells[(n, k)] = frozenset([None])
        IN = {fn.entry: dict(cells)}
        work = [fn.entry]
        flags = {}
        while work:
            bb = work.pop(0)
            st = dict(IN[bb])
            evs = {g[0]: g for g in gen.get(bb, ())}
            for i in bb.insts:
                if i in evs:
                    _, n, off, size = evs[i]
                    if off is None or size is None:
                        for c in cells:
                            if c[0] == n:
                                st[c] = st[c] | {i}
                    else:
                        for k in range(off, off + size):
                            if (n, k) in st:
                                st[(n, k)] = frozenset([i])
                if i in self.flagstores:
                    flags[i] = dict(st)
            for s in bb.succs:
                if s not in IN:
                    IN[s] = dict(st)
                    work.append(s)
                else:
                    ch = False
                    for c, v in st.items():
                        if not v <= IN[s][c]:
                            IN[s][c] = IN[s][c] | v
                            ch = True
                    if ch and s not in work:
                        work.append(s)
        return flags

    def absent(self):
        return ABSENT[self.cfg.arch]
