"""The loops of initialization that fill the published lists, one iteration each (see sym.py)."""
from . import build
from .ir import Const, Global, Inst
from .prov import origins, root
from .publish import Model
from .sym import Iteration, Sym, loops_of

STRUCT = {"processors": "cpuinfo_processor", "cores": "cpuinfo_core", "clusters": "cpuinfo_cluster",
          "packages": "cpuinfo_package", "uarchs": "cpuinfo_uarch_info"}
LINK = {"cores": "core", "clusters": "cluster", "packages": "package", "l1i_caches": "cache.l1i", "l1d_caches": "cache.l1d",
        "l2_caches": "cache.l2", "l3_caches": "cache.l3", "l4_caches": "cache.l4"}
# large parts of the detection that do not fill the lists
APART = ["cpuinfo_arm_decode_cache", "cpuinfo_x86_init_processor", "cpuinfo_x86_format_package_name",
         "cpuinfo_x86_normalize_brand_string", "cpuinfo_arm_decode_vendor_uarch"]
RECORD = {"x86": "cpuinfo_x86_linux_processor", "arm": "cpuinfo_arm_linux_processor", "riscv": "cpuinfo_riscv_linux_processor"}

NUMBER = ("linux_id", "system_processor_id")


class Topo:
    def __init__(self, cfg):
        self.cfg = cfg
        self.M = M = Model(cfg, noinline=APART, post="function(sroa,simplifycfg,early-cse,newgvn)")
        self.m = M.m
        self.s = Sym(self.m)
        self.b = self.s.b
        di = self.m.di
        self.size, self.fields = {}, {}
        self.kindof = {}
        fl = M.reaching()
        for k, lst, cnt in M.kind_slots():
            st = STRUCT.get(k, "cpuinfo_cache")
            self.size[k] = di.sizeof(st)
            self.fields[k] = di.bytefields(st)
            if lst and lst[0] == "object":
                self.kindof[lst[1]] = k
            elif lst:
                for d in fl.values():
                    for x in d.get(lst, ()):
                        if x is not None and x.op == "store":
                            for o in origins(x.ops[0]):
                                if isinstance(o, (Inst, Global)):
                                    self.kindof[o] = k
        self.rsize = di.sizeof(RECORD[cfg.arch])
        self.rfields = di.bytefields(RECORD[cfg.arch])
        self.s.extent = self.chararray
        self.loops, self.order = loops_of(M.det)
        self.its = []
        self.written = {}
        for l in self.loops:
            if self._interesting(l):
                it = Iteration(self.s, M.det, l, self.order)
                it.counters = self.counters(it)
                self.its.append(it)
        self._out = {}
        self._recs = None
        self._last = None

    def outside(self, it, kind, field):
        """is the field also written outside of this loop?"""
        if it not in self._out:
            s = self._out[it] = set()
            for i in self.M.det.insts:
                if i.op == "store" and i.bb not in it.l.blocks:
                    p, off, idx = root(i.ops[1])
                    for k in self.kinds(p):
                        for n, (o, sz) in self.fields[k].items():
                            if o == off % self.size[k]:
                                s.add((k, n))
        return (kind, field) in self._out[it]

    def kinds(self, v):
        return {self.kindof[o] for o in origins(v) if o in self.kindof}

    def _interesting(self, l):
        for bb in l.blocks:
            for i in bb.insts:
                if i.op == "store" and self.kinds(root(i.ops[1])[0]):
                    return not any(k.header in l.blocks and k is not l and self._stores(k) for k in l.inner)
        return False

    def _stores(self, l):
        return any(i.op == "store" and self.kinds(root(i.ops[1])[0]) for bb in l.blocks for i in bb.insts)

    def chararray(self, f):
        """size of the character array member at this address"""
        e = self.elem(f)
        if e and e[0] == "packages" and e[3] == self.fields["packages"]["name"][0]:
            return self.fields["packages"]["name"][1]
        return None

    # ---- addresses of list elements
    def kind(self, leaf):
        v = self.s.lval.get(leaf)
        if v is None:
            return None
        ks = self.kinds(v)
        return next(iter(ks)) if len(ks) == 1 else None

    def elem(self, f):
        """address form -> (kind, object leaf, index form, byte offset in the element) or None"""
        l, off = self.s.base(f)
        if l is None:
            return None
        k = self.kind(l)
        if k is None or self.s.leafs[l][0] == "phi":
            return None
        e = self.size[k]
        if any(c % e for _, c in off[1]):
            return None
        q, r = divmod(off[0], e)
        return k, l, (q, tuple((x, c // e) for x, c in off[1])), r

    def addr(self, kind, l, idx, field):
        o, sz = self.fields[kind][field]
        f = self.s.add((o, ((l, 1),)), self.s.mul(idx, self.size[kind]))
        return f, sz

    def fieldname(self, kind, r):
        for n, (o, sz) in self.fields[kind].items():
            if o == r:
                return n
        return None

    def rec(self, f):
        """leaf form [record + field] -> (array leaf, index form, field name)"""
        if f[0] or len(f[1]) != 1 or f[1][0][1] != 1:
            return None
        k = self.s.leafs[f[1][0][0]]
        if k[0] != "mem":
            return None
        l, off = self.s.base(k[1])
        if l is None or any(c % self.rsize for _, c in off[1]) or not off[1] and l not in self.records():
            return None
        v = self.s.lval.get(l)
        if self.kinds(v) if v is not None else True:
            return None
        q, r = divmod(off[0], self.rsize)
        for n, (o, sz) in self.rfields.items():
            if o == r and sz == k[2]:
                return l, (q, tuple((x, c // self.rsize) for x, c in off[1])), n
        return None

    def records(self):
        """leaves of the array of processor records"""
        if self._recs is None:
            self._recs = set()
            for k in list(self.s.leafs):
                if k[0] == "mem":
                    l, off = self.s.base(k[1])
                    if l is not None and off[1] and all(c == self.rsize for _, c in off[1]) and not self.kinds(self.s.lval.get(l)):
                        self._recs.add(l)
        return self._recs

    # ---- values at the end of an iteration
    def final(self, it, f, size, guard=1):
        class I:
            op = "load"
            uid = ("final",)

            class ty:
                kind = "int"
                bits = 0
        if not guard:
            return {}
        return it.load1(I, f, size, guard)

    def unchanged(self, f, size):
        return self.s.leaf(("mem", f, size))

    def counters(self, it):
        """loop-carried integers with constant initial value that advance by constants: leaf -> (representative, offset)"""
        s, b = self.s, self.b
        out, cls = {}, {}
        it.nextof, it.initof = {}, {}
        for ph, v, init, nx in it.phis():
            if not isinstance(v, dict) or ph.ty.kind != "int":
                continue
            f = next(iter(v))
            l = f[1][0][0]
            it.nextof[l] = nx
            if len(init) == 1 and len(init[0]) == 1:
                it.initof[l] = next(iter(init[0]))
            ini = it.initof.get(l)
            if ini is None or ini[1]:
                continue
            delta, reset = {}, False
            for g, h in nx.items():
                d = s.add(g, f, -1)
                if d[1]:
                    if g[1]:
                        delta = None
                        break
                    delta[("=", g[0] - ini[0])] = b.OR(delta.get(("=", g[0] - ini[0]), 0), h)
                else:
                    delta[d[0]] = b.OR(delta.get(d[0], 0), h)
            if delta is None:
                continue
            key = frozenset(delta.items())
            if key in cls:
                r, i0 = cls[key]
                out[l] = (r, ini[0] - i0)
            else:
                cls[key] = (l, ini[0])
                out[l] = (l, 0)
        return out

    def norm(self, it, f):
        """replace counters that always move together by one of them"""
        for _ in range(4):
            r = (f[0], ())
            for l, c in f[1]:
                if l in it.counters:
                    q, o = it.counters[l]
                    t = (o, ((q, 1),))
                else:
                    t = (0, ((l, 1),))
                t = it.same.get(l, t) if hasattr(it, "same") else t
                r = self.s.add(r, t, c)
            if r == f:
                return f
            f = r
        return f

    def rel(self, it, x, y):
        """True: equal, False: different for some inputs, None: unknown"""
        d = self.norm(it, self.s.add(x, y, -1))
        if d == (0, ()):
            return True
        if all(l in it.counters or l in self.s.ptr or self.cpu_number(l) for l, _ in d[1]):
            return False
        return None

    def cpu_number(self, l):
        """the operating system's number in a record: not related to the position of the record once these are sorted"""
        r = self.rec((0, ((l, 1),)))
        return r is not None and r[2] in NUMBER and self.sorted_last()

    def sorted_last(self):
        """no number is stored to the records after they are sorted"""
        if self._last is None:
            sites = [i for i in self.M.det.insts if i.op == "call" and getattr(i.callee, "name", None) == "qsort"]
            self._last = len(sites) == 1
            if sites:
                seen, todo = set(), [sites[0].bb]
                while todo:
                    for x in todo.pop().succs:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
                self._last &= not any(i.bb in seen for i, n in self.number_stores())
        return self._last

    def number_stores(self):
        """stores of the operating system's number to a record: (store, index)"""
        for i in self.M.det.insts:
            if i.op == "store":
                p, off, idx = root(i.ops[1])
                if len(idx) == 1 and idx[0][1] == self.rsize and not self.kinds(p) and \
                        any(self.rfields[n][0] == off for n in NUMBER if n in self.rfields):
                    yield i, idx[0][0]


def procs(t, it):
    """how this loop addresses processor descriptions: list leaf, index form; aligns the loop index with it"""
    s = t.s
    idx = []
    for st in it.stores:
        e = t.elem(st.addr) if st.size is not None else None
        if e and e[0] == "processors" and st.ptrval:
            n = t.fieldname("processors", e[3])
            if (e[1], e[2]) not in [x[:2] for x in idx]:
                idx.append((e[1], e[2], st))
    if not idx:
        return None
    it.same = positions(t, it)
    for st in it.stores:
        if any(x in it.same for x, _ in st.addr[1]):
            r = (st.addr[0], ())
            for x, k in st.addr[1]:
                r = s.add(r, it.same.get(x, (0, ((x, 1),))), k)
            st.addr = r
    l, pf, _ = idx[0]
    return l, t.norm(it, pf), sorted({(x, t.norm(it, y)) for x, y, _ in idx})


def positions(t, it):
    """counters of the usable processors -> running index of the loop: the records are sorted with the usable ones first"""
    b = t.b
    again = it.again()
    run = [c for c, (r, o) in it.counters.items() if it.nextof[c] == {(1, ((c, 1),)): again} and it.initof[c] == (0, ())]
    if not run:
        return {}
    c = run[0]
    out = {}
    for p in it.counters:
        nx = it.nextof[p]
        if p != c and set(nx) == {(1, ((p, 1),)), (0, ((p, 1),))}:
            vs = b.support(nx[(1, ((p, 1),))]) - b.support(again)
            if vs and all(usable(t, c, k) for k in vs):
                out[p] = (it.initof[p][0], ((c, 1),))
    return out


def usable(t, c, k):
    """an atom that tests the flags of the record of this iteration"""
    seen, todo = set(), [x for x in k[1:]]
    hit = False
    while todo:
        x = todo.pop()
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple)):
            continue
        for l, _ in x[1]:
            if l in seen:
                continue
            seen.add(l)
            r = t.rec((0, ((l, 1),)))
            if r:
                if r[2] != "flags" or r[1] != (0, ((c, 1),)):
                    return False
                hit = True
            else:
                todo += list(t.s.leafs[l][1:])
    return hit


def links(t, it, kind, plist, field):
    """[(value form, guard, store)] of the processor's link at the end of the iteration"""
    b = t.b
    res = []
    for l, pf in plist:
        f, sz = t.addr("processors", l, pf, field)
        v = 0
        last = None
        for st in it.stores:
            if st.size is not None and st.addr == f:
                v = b.OR(v, st.guard)
                last = st
        if v:
            fin = t.final(it, f, sz, v)
            res += [(x, b.AND(g, v), last) for x, g in fin.items() if b.AND(g, v)]
    return res


def stores_to(t, it, kind, field):
    out = []
    for st in it.stores:
        if st.size is None:
            continue
        e = t.elem(st.addr)
        if e and e[0] == kind:
            o, sz = t.fields[kind][field]
            if e[3] <= o and o + sz <= e[3] + st.size:
                out.append((st, e[2]))
    return out


def advance(t, it, g):
    """index form -> (counter leaf, distance from the element used by the previous iteration) or None"""
    s = t.s
    g = t.norm(it, g)
    if len(g[1]) == 1 and g[1][0][1] == 1 and g[1][0][0] in it.counters:
        c = g[1][0][0]
        prev = -1 - it.initof[c][0]
        return c, g[0] - prev
    return None


def published(t, v):
    """a value that is published as the number of processors"""
    pub = counts_published(t)
    return True if v in pub.get("processors", ()) else None


def counts_published(t):
    if not hasattr(t, "_pub"):
        t._pub = {}
        fl = t.M.reaching()
        for k, lst, cnt in t.M.kind_slots():
            if isinstance(cnt, tuple) and cnt[0] != "object":
                for d in fl.values():
                    for x in d.get(cnt, ()):
                        if x is not None and x.op == "store":
                            v = t.s.outside(x.ops[0])
                            if len(v) == 1:
                                t._pub.setdefault(k, set()).add(next(iter(v)))
    return t._pub


def cpumax(t):
    return {o for i in t.M.det.insts if i.op == "store" and isinstance(i.ops[1], Global) and i.ops[1].name == "cpuinfo_linux_cpu_max"
            for o in origins(i.ops[0])}


def uniq(out):
    """the worst answer of each obligation: it may be reached through several alternatives"""
    best = {}
    for o in out:
        k = (o[0], o[4])
        cur = best.get(k)
        rank = {False: 0, None: 1, True: 2}
        if cur is None or rank[o[1]] < rank[cur[1]]:
            best[k] = o
    return [best[k] for k in sorted(best)]
