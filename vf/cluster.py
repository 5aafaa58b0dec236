"""How processor records are put into groups on ARM: the leader of each record and the number of records of a group.

Invariants over the loops that write them: the leader of a usable record is a usable record, never one with a higher number, and
the number of a group is the number of usable records that have its leader."""
from . import build
from .bv import BV
from .ir import Const, Inst
from .sym import Iteration

LEADER, COUNT, ID = "package_leader_id", "package_processor_count", "system_processor_id"


class Groups:
    def __init__(self, t):
        self.t, self.s, self.b = t, t.s, t.b
        self.its = {}
        self.valid = build.macro(t.cfg, "linux/api.h", "CPUINFO_LINUX_FLAG_VALID")
        self.grouped = build.macro(t.cfg, "linux/api.h", "CPUINFO_LINUX_FLAG_PACKAGE_CLUSTER") or 0
        t._recs = None
        self.inner = {}
        for l in t.loops:                       # outermost first
            for bb in l.blocks:
                self.inner[bb] = l
        self.found = {LEADER: [], COUNT: [], ID: []}
        offs = {t.rfields[f][0]: f for f in self.found if f in t.rfields}
        for i in t.M.det.insts:
            if i.op != "store" or i.bb not in self.inner:
                continue
            it = self.iteration(self.inner[i.bb])
            for st in it.stores:
                if st.inst is not i or st.size is None:
                    continue
                l, off = self.s.base(st.addr)
                if l is None or off[0] % t.rsize not in offs or any(c % t.rsize for _, c in off[1]):
                    continue
                r = t.rec(self.s.leaf(("mem", st.addr, st.size)))
                if r and r[2] in self.found:
                    self.found[r[2]].append((it, st, self.norm(it, r[1])))

    def iteration(self, l):
        it = self.its.get(l.header)
        if it is None:
            it = next((i for i in self.t.its if i.l.header is l.header), None)
            if it is None:
                it = Iteration(self.s, self.t.M.det, l, self.t.order)
                it.counters = self.t.counters(it)
            self.its[l.header] = it
        return it

    def norm(self, it, f):
        return self.t.norm(it, f)

    def outer(self, bb):
        """loops around the block, innermost first"""
        return [l for l in reversed(self.t.loops) if bb in l.blocks]

    # ---- conditions
    def flags(self, it, g, y, rough=False):
        """condition as function of the bits of the flags of record y; rough: a weaker one will do"""
        t, b = self.t, self.b

        def leaf(k, l):
            r = t.rec((0, ((l, 1),)))
            if r and r[2] == "flags" and self.norm(it, r[1]) == y:
                return [b.atom(("flagof", y, i)) for i in range(32)]
            return None
        bv = BV(self.s, b, 32, leaf)
        sub = {}
        sure = 1
        for k in b.support(g):
            if k[0] != "eq":
                continue
            w = bv.form(k[1])
            if w is None:
                continue
            r = 1
            for z in w:
                r = b.AND(r, b.NOT(z))
            sub[b.index[k]] = r
            # a test that has to come out one way
            if b.restrict(g, {b.index[k]: 0}) == 0:
                sure = b.AND(sure, r)
            elif b.restrict(g, {b.index[k]: 1}) == 0:
                sure = b.AND(sure, b.NOT(r))
        if len(b.support(g)) > 45:
            return sure if rough else None
        return b.compose(g, sub) if sub else g

    def is_valid(self, y):
        r = 1
        for i in range(32):
            if self.valid >> i & 1:
                r = self.b.AND(r, self.b.atom(("flagof", y, i)))
        return r

    def implies(self, it, g, y):
        return self.b.AND(self.flags(it, g, y, True), self.b.NOT(self.is_valid(y))) == 0

    def remap(self, f, it):
        """the form as seen from another loop around"""
        r = (f[0], ())
        for l, c in f[1]:
            v = self.s.lval.get(l)
            k = self.s.leafs[l]
            if k[0] in ("out", "phi") and isinstance(v, Inst):
                try:
                    x = it.get(v)
                except KeyError:
                    return None
                if not isinstance(x, dict) or len(x) != 1:
                    return None
                r = self.s.add(r, next(iter(x)), c)
            else:
                r = self.s.add(r, (0, ((l, 1),)), c)
        return r

    def usable(self, it, bb, g, y):
        """is record y usable where the condition holds in the block? None: cannot tell"""
        if self.implies(it, g, y):
            return True
        other = False
        for l in self.outer(bb):
            it2 = self.iteration(l)
            y2 = self.remap(y, it2)
            if y2 is None:
                continue
            y2 = self.norm(it2, y2)
            h = it2.reach.get(bb, 1)
            if self.implies(it2, h, y2):
                return True
            other |= self.unknown(it2, h, y2)
        other |= self.unknown(it, g, y)
        if other or not all(self.s.leafs[l][0] in ("phi", "out") for l, _ in y[1]):
            return None
        return False

    def unknown(self, it, g, y):
        """tests of something else than the record that is selected by the same number"""
        for k in self.b.support(g):
            for f in k[1:]:
                if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], tuple) and self.foreign(it, f, y):
                    return True
        return False

    def foreign(self, it, f, y, depth=0):
        for l, _ in f[1]:
            k = self.s.leafs[l]
            if k[0] == "mem":
                r = self.t.rec((0, ((l, 1),)))
                if not r and any(x in [z for z, _ in y[1]] for x, _ in k[1][1]):
                    return True
            elif k[0] == "op" and depth < 6:
                if any(isinstance(x, tuple) and self.foreign(it, x, y, depth + 1) for x in k[2:4]):
                    return True
            elif k[0] in ("big", "overlap"):
                return True
        return False

    # ---- values
    def leader_of(self, it, v):
        """record whose leader the value is"""
        r = self.t.rec(v)
        return self.norm(it, r[1]) if r and r[2] == LEADER else None

    def above(self, it, g, v, w):
        """can v exceed w where g holds?"""
        b = self.b
        a = ("ult", w, v)
        sub = {b.index[x]: k for x, k in ((a, 1), (("ult", v, w), 0)) if x in b.index}
        d = self.s.add(v, w, -1)
        for e in (d, self.s.mul(d, -1)):
            if ("eq", e) in b.index:
                sub[b.index[("eq", e)]] = 0
        return b.restrict(g, sub) != 0

    def run(self, ob):
        if self.valid is None:
            ob("clusters: usable", None, "src/linux/api.h", "mark of usable processors not found")
            return
        self.init(ob)
        for it, st, x in self.found[LEADER]:
            for v, h in st.val.items():
                g = self.b.AND(st.guard, h)
                if g:
                    self.leader(it, st, x, self.norm(it, v), g, ob)
        self.counts(ob)

    def init(self, ob):
        t, b = self.t, self.b
        ok, where = None, "src/arm/linux/init.c"
        for it, st, x in self.found[LEADER]:
            if list(st.val) == [x] and x[1] and x[1][0][0] in it.counters:
                c = x[1][0][0]
                got = self.flags(it, st.guard, x)
                if got is None:
                    continue
                miss = b.AND(b.AND(self.within(it, c), self.is_valid(x)), b.NOT(got))
                if self.initial(it, c) and not miss:
                    ok = True
                elif ok is None and not self.unknown(it, st.guard, x) and self.initial(it, c) and self.first(it):
                    ok, where = False, st.inst.loc()
        ob("clusters: leader initialised", ok, where, "a usable processor does not start out as the leader of its own cluster")

    def first(self, it):
        """no loop before this one writes leaders"""
        return not any(o is not it and precedes(o.l.header, it.l.header) for o, _, _ in self.found[LEADER])

    def initial(self, it, c):
        return it.initof.get(c) == (0, ()) and list(it.nextof[c]) == [(1, ((c, 1),))]

    def within(self, it, c):
        """the loop goes on: the condition of its header"""
        g = 0
        for x in it.l.header.succs:
            if x in it.l.blocks:
                g = self.b.OR(g, it.edge.get((it.l.header, x), 0))
        return g

    def leader(self, it, st, x, v, g, ob):
        s, b = self.s, self.b
        where = st.inst.loc()
        key = "clusters: leader is usable"
        order = "clusters: leader has the lowest number"
        if v == x:
            return
        y = self.leader_of(it, v)
        if y == x:
            return
        if y is not None:
            if self.leader_of(it, y) == x:
                # the leader of the leader
                ob(key, True, where, "")
                return
            r = self.usable(it, st.inst.bb, g, y)
            ob(key, r, where, "a processor joins the cluster of a processor that need not be usable")
            lx = s.leaf(("mem", st.addr, st.size))
            r = not self.above(it, g, v, lx)
            ob(order, r, where, "a processor is given a leader with a higher number than its previous one")
            return
        if len(v[1]) == 1 and v[1][0][1] == 1 and not v[0]:
            l = v[1][0][0]
            ph = s.lval.get(l)
            if s.leafs[l][0] in ("phi", "out") and isinstance(ph, Inst) and ph.op == "phi":
                self.carried(it, st, x, v, g, ph, ob)
                return
            if s.leafs[l][0] == "out" and isinstance(ph, Inst):
                self.before(it, st, v, g, ph, ob)
                return
        if not v[1]:
            ob(key, False, where, "every processor is put into the cluster of the same processor, usable or not")
            return
        if all(self.s.leafs[l][0] == "phi" for l, _ in v[1]):
            ob(key, self.usable(it, st.inst.bb, g, v), where, "a processor joins the cluster of a processor that need not be usable")
            return
        ob(key, None, where, "leader not recognised")

    def before(self, it, st, v, g, i, ob):
        """a value from before the loop"""
        where = st.inst.loc()
        key, order = "clusters: leader is usable", "clusters: leader has the lowest number"
        o = self.iteration(self.inner[i.bb]) if i.bb in self.inner else None
        ys = [self.leader_of(o, z) for z in self.values(o, i)] if o else [None]
        if None in ys:
            ob(key, None, where, "leader not recognised")
            return
        for y in ys:
            ob(key, self.usable(o, i.bb, o.reach.get(i.bb, 1), y), where, "a processor joins the cluster of a processor that need not be usable")
        lx = self.s.leaf(("mem", st.addr, st.size))
        ob(order, not self.above(it, g, v, lx), where, "a processor is given a leader with a higher number than its previous one")

    def carried(self, it, st, x, v, g, ph, ob):
        """a leader that a loop carries along"""
        s, b = self.s, self.b
        where = st.inst.loc()
        key, order = "clusters: leader is usable", "clusters: leader has the lowest number"
        loop = next((l for l in self.t.loops if l.header is ph.bb), None)
        if loop is None:
            vals = self.merged(it, ph, 0)
            if not vals:
                ob(key, None, where, "leader not recognised")
            for w, bb in vals or ():
                y = self.leader_of(it, w)
                if y is None:
                    ob(key, None, where, "leader not recognised")
                else:
                    ob(key, self.usable(it, bb, it.reach.get(bb, 1), y), where, "a processor joins the cluster of a processor that need not be usable")
            return
        lt = self.iteration(loop)
        me = lt.env[ph]
        me = next(iter(me))
        entry = next(p for p in lt.phis() if p[0] is ph)
        _, _, init, nxt = entry
        own = True                   # the carried leader is a number the loop itself met before
        for w, h in nxt.items():
            w = self.norm(lt, w)
            if w == me:
                continue
            y = self.leader_of(lt, w)
            if y is not None:
                own = False
                ob(key, self.usable(lt, loop.header, h, y), where, "a processor joins the cluster of a processor that need not be usable")
                ob(order, not self.above(lt, h, w, me), where, "the leader of a cluster is not the lowest numbered of its processors")
            elif w[1] and all(s.leafs[l][0] == "phi" for l, _ in w[1]):
                ob(key, self.usable(lt, loop.header, h, w), where, "the leader of a cluster need not be a usable processor")
                self.itself(lt, w, h, where, ob)
                if it is lt and x != w and not self.s.add(x, w, -1)[1]:
                    ob(order, None, where, "")
            else:
                own = False
                ob(key, None, where, "leader not recognised")
        for f in init:
            for w, _ in f.items():
                k = s.leafs[w[1][0][0]] if len(w[1]) == 1 and not w[0] else ("",)
                if k[0] == "undef":
                    # no leader yet: not in the first iteration
                    ob(key, not self.at(lt, g) if it is lt else None, where, "a processor may be given a leader before the first cluster was started")
                    continue
                if own and it is lt and not self.at(lt, g):
                    continue
                o = self.outer_iteration(loop)
                w2 = self.entry(ph, loop)
                if o is None or w2 is None:
                    ob(key, None, where, "leader not recognised")
                    continue
                for z in self.values(o, w2):
                    y = self.leader_of(o, z)
                    if y is None:
                        if own and not z[1]:
                            continue
                        if not own and (all(l in o.counters for l, _ in z[1]) or not self.recorded(w2)):
                            bb = w2.bb if isinstance(w2, Inst) else loop.header
                            ob(key, self.usable(o, bb, o.reach.get(bb, 1), z), where, "a processor joins the cluster of a processor that need not be usable")
                            continue
                        ob(key, None, where, "leader not recognised")
                        continue
                    ob(key, self.usable(o, w2.bb if isinstance(w2, Inst) else loop.header, o.reach.get(w2.bb, 1), y), where,
                       "a processor joins the cluster of a processor that need not be usable")
        if it is lt and not own:
            # within the loop: the lower one of the carried leader and the processor's own
            lx = s.leaf(("mem", st.addr, st.size))
            ob(order, not self.above(it, g, v, lx), where, "a processor is given a leader with a higher number than its previous one")
            if x[1] and len(x[1]) == 1 and x[1][0][0] in it.nextof:
                got = self.flags(it, st.guard, x)
                miss = None if got is None else b.AND(b.AND(self.within(it, x[1][0][0]), self.is_valid(x)), b.NOT(got))
                ob("clusters: siblings", True if miss == 0 else None if got is None else None if self.unknown(it, st.guard, x) else False, where,
                   "a usable processor of a siblings list is not put into the cluster of the others")

    def itself(self, it, w, h, where, ob):
        """a processor that becomes the leader of others leads itself, or was found to do so before"""
        b, s, t = self.b, self.s, self.t
        key, text = "clusters: leader leads itself", "a processor is made the leader of others although it belongs to another cluster"
        l = next((s.base(st.addr)[0] for _, st, _ in self.found[LEADER]), None)
        o, sz = t.rfields[LEADER]
        f = s.add((o, ((l, 1),)), s.mul(w, t.rsize))
        h = b.AND(h, it.again())
        fin = t.final(it, f, sz, h)
        if all(v == w for v in fin):
            ob(key, True, where, "")
            return
        old = s.leaf(("mem", f, sz))
        if any(v not in (w, old) for v in fin):
            ob(key, None, where, "leader not recognised")
            return
        res = []
        for lp in t.loops:
            if lp.header is it.l.header or not precedes(lp.header, it.l.header) or precedes(it.l.header, lp.header) or lp.inner:
                continue
            if not self.walks(lp, l):
                continue
            a = self.iteration(lp)
            for ph, v, init, nx in a.phis():
                for f2, h2 in nx.items() if isinstance(nx, dict) and ph.ty.kind == "int" else ():
                    f2 = self.norm(a, f2)
                    if len(f2[1]) != 1 or f2[0] or not self.initial(a, f2[1][0][0]) or f2 == next(iter(v)):
                        continue
                    if not self.implies(a, h2, f2):
                        continue
                    fl = self.flags(a, h2, f2)
                    if fl is None:
                        res.append(None)
                        continue
                    g2 = s.add((o, ((l, 1),)), s.mul(f2, t.rsize))
                    same = s.eqatom(s.add(s.leaf(("mem", g2, sz)), f2, -1))
                    bad = b.AND(fl, b.NOT(same))
                    for i in range(32):
                        if self.grouped >> i & 1:
                            bad = b.AND(bad, b.atom(("flagof", f2, i)))
                    res.append(bad == 0)
        ob(key, True if True in res else None if None in res or not res else False, where, text)

    def walks(self, lp, l):
        """a loop over the records that remembers a number and reads leaders"""
        t = self.t
        it = self.iteration(lp)
        return any(i.op == "load" and (self.recfield(it, i) == LEADER) for bb in lp.blocks for i in bb.insts)

    def recfield(self, it, i):
        v = it.env.get(i)
        if isinstance(v, dict):
            for f in v:
                r = self.t.rec(f)
                if r:
                    return r[2]
        return None

    def merged(self, it, ph, depth):
        """[(value, block)] of a phi that is not at the head of a loop"""
        out = []
        for v, bb in ph.inc:
            if isinstance(v, Const):
                if v.kind in ("undef", "poison"):
                    continue
                return None
            try:
                x = it.get(v)
            except KeyError:
                return None
            if not isinstance(x, dict):
                return None
            out += [(f, bb) for f in x]
        return out

    def recorded(self, v):
        """may the value come from a record (and not only from the text of a list)?"""
        seen, todo = set(), [v]
        while todo:
            i = todo.pop()
            if not isinstance(i, Inst) or i in seen:
                continue
            seen.add(i)
            if i.op == "load":
                if i.size != 1:
                    return True
            elif i.op == "phi":
                todo += [w for w, _ in i.inc]
            else:
                todo += i.ops
        return False

    def outer_iteration(self, loop):
        ls = [l for l in self.outer(loop.header) if l is not loop]
        return self.iteration(ls[0]) if ls else None

    def entry(self, ph, loop):
        vs = [v for v, p in ph.inc if p not in loop.blocks]
        return vs[0] if len(vs) == 1 and isinstance(vs[0], Inst) else None

    def values(self, it, v):
        try:
            x = it.get(v)
        except KeyError:
            return [(0, ((-1, 1),))]
        return list(x) if isinstance(x, dict) else []

    def at(self, it, g):
        """can the condition hold in the first iteration?"""
        b, s = self.b, self.s
        first = {c: z for c, z in it.initof.items() if not z[1]}
        sub = {}
        for k in b.support(g):
            if k[0] == "eq":
                f = k[1]
                r = (f[0], ())
                for l, c in f[1]:
                    r = s.add(r, first.get(l, (0, ((l, 1),))), c)
                if not r[1]:
                    sub[b.index[k]] = int(r[0] == 0)
        return b.restrict(g, sub) != 0

    def counts(self, ob):
        b, s = self.b, self.s
        where = "src/arm/linux/clusters.c"
        add, copy = [], []
        for it, st, x in self.found[COUNT]:
            w = st.inst.loc()
            old = s.leaf(("mem", st.addr, st.size))
            y = self.leader_of(it, x)
            for v, h in st.val.items():
                v = self.norm(it, v)
                g = b.AND(st.guard, h)
                d = s.add(v, old, -1)
                r = self.t.rec(v)
                if not d[1]:
                    if d[0] == 0:
                        continue
                    if y is None and x[1]:
                        ob("clusters: count", False if all(s.leafs[l][0] == "phi" for l, _ in x[1]) else None, w,
                           "the processors of a cluster are not counted at its leader")
                    elif d[0] != 1:
                        ob("clusters: count", False, w, "the number of processors of a cluster does not grow by one for each of them")
                    else:
                        add.append((it, st, y, g))
                elif r and r[2] == COUNT and self.leader_of(it, self.norm(it, r[1])) == x:
                    copy.append((it, st, x, g))
                elif not v[1] and v[0] == 0:
                    continue                       # reset
                elif r and r[2] == COUNT:
                    ob("clusters: count", False, w, "the number of processors of a cluster is taken from another one than its leader")
                else:
                    ob("clusters: count", None, w, "number of processors of a cluster not recognised")
        for what, lst in (("counted", add), ("told to its processors", copy)):
            if not lst:
                ob(f"clusters: count {what}", None, where, "loop not found")
            for it, st, y, g in lst:
                c = y[1][0][0] if len(y[1]) == 1 else None
                key = f"clusters: count {what}"
                if c is None or not self.initial(it, c):
                    ob(key, None, st.inst.loc(), "loop not recognised")
                    continue
                want = b.AND(self.within(it, c), self.is_valid(y))
                got = self.flags(it, g, y)
                if got is None:
                    ob(key, None, st.inst.loc(), "loop not recognised")
                    continue
                if what == "counted":
                    r = got == want
                else:
                    r = b.AND(want, b.NOT(got)) == 0
                if not r and self.unknown(it, g, y):
                    r = None
                ob(key, r, st.inst.loc(), "the number of processors of a cluster is not the number of usable processors in it" if what == "counted" else
                   "the number of processors of a cluster does not reach all of its processors")
        for it, st, _, _ in copy:
            for it2, st2, _, _ in add:
                if it is it2 or precedes(it.l.header, it2.l.header) and not precedes(it2.l.header, it.l.header):
                    ob("clusters: count complete", False if it is not it2 else None, st.inst.loc(), "the number of processors of a cluster is copied before all are counted")


def precedes(x, y):
    seen, todo = set(), list(x.term.succs)
    while todo:
        z = todo.pop()
        if z is y:
            return True
        if z not in seen:
            seen.add(z)
            todo += z.term.succs
    return False


def counted(t, g, cnt, fill, ob):
    """clusters are counted, and created, once for each usable processor that is its own leader"""
    s, b = t.s, t.b
    where = "src/arm/linux/midr.c"
    if g.valid is None or "clusters" not in cnt:
        ob("clusters: counted", None, where, "loop not found")
        return
    it, c = cnt["clusters"]
    adv = steps(t, it, c)
    ph = s.lval.get(c)
    where = next((i.loc() for i in it.l.header.insts if i.line), where)
    run = [x for x in it.counters if g.initial(it, x)]
    if adv is None or len(run) != 1:
        ob("clusters: counted", None, where, "loop not recognised")
    else:
        where = next((x.loc() for x in t.M.det.insts if x.op == "add" and x.ops and x.ops[0] is ph and x.line), where)
        x = (0, ((run[0], 1),))
        got = g.flags(it, adv, x)
        l = next((s.base(st.addr)[0] for _, st, _ in g.found[LEADER]), None)
        want = None
        if l is not None and got is not None:
            o, sz = t.rfields[LEADER]
            f = s.add((o, ((l, 1),)), s.mul(x, t.rsize))
            want = b.AND(b.AND(g.within(it, run[0]), g.is_valid(x)), s.eqatom(s.add(s.leaf(("mem", f, sz)), x, -1)))
        r = got == want if want is not None else None
        if r is False and g.unknown(it, adv, x):
            r = None
        ob("clusters: counted", r, where, "the number of clusters is not the number of usable processors that lead a cluster")
    ok = None
    for i2, st, x in g.found[ID]:
        if list(st.val) == [x] and len(x[1]) == 1 and g.initial(i2, x[1][0][0]):
            got = g.flags(i2, st.guard, x)
            if got is not None:
                ok = b.AND(b.AND(g.within(i2, x[1][0][0]), g.is_valid(x)), b.NOT(got)) == 0
                if ok is False and g.unknown(i2, st.guard, x):
                    ok = None
                ob("processors: number", ok, st.inst.loc(), "a usable processor is not given its own number")
        elif st.val and all(not g.t.rec(v) for v in st.val):
            ob("processors: number", False if len(x[1]) == 1 and g.initial(i2, x[1][0][0]) and len(st.val) == 1 and
               all(z in i2.counters for v in st.val for z, _ in v[1]) else None, st.inst.loc(), "a processor is given the number of another one")
    if "clusters" not in fill:
        ob("clusters: filled", None, "src/arm/linux/init.c", "loop not found")
        return
    it, c = fill["clusters"]
    adv = steps(t, it, c)
    where = next((i.loc() for i in it.l.header.insts if i.line), "src/arm/linux/init.c")
    run = [x for x in it.counters if g.initial(it, x)]
    if adv is None or len(run) != 1:
        ob("clusters: filled", None, where, "loop not recognised")
        return
    ls = set()
    for k in b.support(adv):
        for f in k[1:]:
            if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], tuple):
                for z, _ in f[1]:
                    r = t.rec((0, ((z, 1),)))
                    if r:
                        ls.add(r[0])
    if len(ls) != 1:
        ob("clusters: filled", None, where, "loop not recognised")
        return
    l = ls.pop()
    x = (0, ((run[0], 1),))

    def field(n):
        o, sz = t.rfields[n]
        return s.leaf(("mem", s.add((o, ((l, 1),)), s.mul(x, t.rsize)), sz))
    want = b.AND(g.within(it, run[0]), s.eqatom(s.add(field(LEADER), field(ID), -1)))
    r = adv == want
    if not r:
        fs = [t.rec((0, ((z, 1),))) for k in b.support(adv) for f in k[1:] if isinstance(f, tuple) and len(f) == 2 and isinstance(f[1], tuple)
              for z, _ in f[1] if s.leafs[z][0] not in ("phi", "out")]
        got = g.flags(it, adv, x)
        if got is not None and got == b.AND(want, g.is_valid(x)):
            r = True
        elif None in fs or any(f[2] == "flags" for f in fs):
            r = None
    ob("clusters: filled", r, where, "clusters are not created for exactly the processors that lead one")


def steps(t, it, c):
    """condition of the counter's advance by one; None if it moves otherwise"""
    adv = 0
    for f, g in it.nextof.get(c, {}).items():
        d = t.s.add(f, (0, ((c, 1),)), -1)
        if d == (1, ()):
            adv = t.b.OR(adv, g)
        elif d != (0, ()):
            return None
    return adv if c in it.nextof else None
