import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, check, cluster
from vf.bdd import BDD, Budget
from vf.bv import BV
from vf.ir import Inst
from vf.prov import origins, root
from vf.sym import Iteration
from vf.topo import LINK, Topo, advance, counts_published, links, procs, uniq
from vf.util import callee, pmap

CFGS = ("x86_64", "i686", "aarch64", "armv7")
WORD = {"cores": "core", "clusters": "cluster", "packages": "package", "l1i_caches": "L1 instruction cache",
        "l1d_caches": "L1 data cache", "l2_caches": "L2 cache", "l3_caches": "L3 cache", "l4_caches": "L4 cache",
        "uarchs": "microarchitecture"}


def sup(b, g):
    return sorted(b.index[k] for k in b.support(g))


def closure(s, f, out=None):
    """leaves a form depends on"""
    out = set() if out is None else out
    for l, _ in f[1]:
        if l not in out:
            out.add(l)
            for x in s.leafs[l][1:]:
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
                    closure(s, x, out)
    return out


def atom_leaves(s, k):
    out = set()
    for x in k[1:]:
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
            closure(s, x, out)
    return out


class Pass:
    """one loop over the processor records"""

    def __init__(self, t, it):
        self.t, self.it, self.s, self.b = t, it, t.s, t.b
        self.phis = {l for l in it.nextof}

    def flags(self, var):
        """does the atom test the flags of the record?"""
        ls = atom_leaves(self.s, self.b.names[var])
        return any((self.t.rec((0, ((l, 1),))) or ("", "", ""))[2] == "flags" for l in ls)

    def split(self, c):
        """(advance condition, exists only steps of +1?)"""
        b, s = self.b, self.s
        adv, rest = 0, 0
        for f, g in self.it.nextof[c].items():
            d = s.add(f, (0, ((c, 1),)), -1)
            if d == (1, ()):
                adv = b.OR(adv, g)
            elif d != (0, ()):
                return None
        return adv


def counting(t):
    """kind -> counting loop (Iteration, counter leaf) for lists whose published number is counted in a loop"""
    out = {}
    its = {}
    fl = t.M.reaching()
    for k, lst, cnt in t.M.kind_slots():
        if not isinstance(cnt, tuple) or cnt[0] == "object":
            continue
        for d in fl.values():
            for x in d.get(cnt, ()):
                if x is None or x.op != "store":
                    continue
                for l in t.loops:
                    for ph in headerphis(x.ops[0], l):
                        it = its.get(l.header)
                        if it is None:
                            it = next((i for i in t.its if i.l.header is l.header), None)
                            if it is None:
                                it = Iteration(t.s, t.M.det, l, t.order)
                                it.counters = t.counters(it)
                            its[l.header] = it
                        v = it.env[ph]
                        if isinstance(v, dict) and len(v) == 1:
                            f = next(iter(v))
                            out[k] = (it, f[1][0][0])
    return out


def headerphis(v, l):
    """phis of the loop header that the value is a copy of"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, Inst) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x.bb is l.header:
            yield x
        elif x.op == "phi" and x.bb not in l.blocks and len(x.inc) <= 2:
            todo += [y for y, _ in x.inc]


def others(t, it, g):
    """loop-carried values that the condition compares, besides the one of the loop itself"""
    b = t.b
    return {l for v in set(sup(b, g)) - set(sup(b, it.again())) for x in b.names[v][1:]
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) for l, _ in x[1] if l in it.nextof}


def keyinfo(t, it, c, ob, kind, what, where):
    """-> (key form, guard conditions) of the comparison with the previous processor that makes the counter advance"""
    s, b = t.s, t.b
    p = Pass(t, it)
    adv = p.split(c)
    w = WORD[kind]
    if adv is None:
        ob(f"{kind}: {what}", None, where, "steps of the counter not recognised")
        return None
    if not adv:
        ob(f"{kind}: {what}", False, where, f"the pass that {what}s {w} objects never advances")
        return None
    whole = adv
    fv = [v for k in [c] + sorted(it.counters) if k in it.initof
          for v in sup(b, s.eqatom(s.add((0, ((k, 1),)), it.initof[k], -1)))]
    begin = b.restrict(adv, {v: 1 for v in fv}) if any(v in fv for v in sup(b, adv)) else None
    adv = b.restrict(adv, {v: 0 for v in fv})
    lasts = set()
    for v in sup(b, adv):
        for l in atom_leaves(s, b.names[v]):
            if l in it.nextof and l not in it.counters:
                lasts.add(l)
    if not lasts:
        # each processor is judged alone: those that share an element are not told from the others
        rs = [t.rec((0, ((l, 1),))) or ("", "", "") for v in sup(b, adv) for l in atom_leaves(s, b.names[v])]
        alone = {r[2] for r in rs} <= {"", "flags", "apic_id", "uarch"} and len({r[1] for r in rs if r[2]}) <= 1
        ob(f"{kind}: {what}", False if alone else None, where,
           f"the pass that {what}s {w} objects does not compare processors with the previous one")
        return None
    if len(lasts) != 1:
        ob(f"{kind}: {what}", None, where, "comparison with the previous processor not recognised")
        return None
    last = lasts.pop()
    keys = {f: g for f, g in it.nextof[last].items() if f != (0, ((last, 1),)) and f[1]}
    if not keys:
        ob(f"{kind}: {what}", False, where, f"the pass that {what}s {w} objects does not remember the previous one")
        return None
    if len(keys) != 1:
        ob(f"{kind}: {what}", None, where, "remembered key not recognised")
        return None
    key, kg = next(iter(keys.items()))
    # whenever an element is created its key is remembered
    miss = b.AND(whole, b.NOT(kg))
    ob(f"{kind}: {what} remembers", not miss if free(t, it, p, miss) or not miss else None, where,
       f"the pass that {what}s {w} objects creates one without remembering its key")
    # an element is created when the keys differ, and only then
    again = Ren(s, {last: key}).bdd(adv)
    r = not again
    if again and (not all(plain(t, p, v) for v in sup(b, again)) or others(t, it, again) - {last}):
        r = None
    ob(f"{kind}: {what} when different", r, where, f"a {w} is created although the processor has the key of the previous one")
    ev = None
    for v in sup(b, adv):
        k = b.names[v]
        if k[0] == "eq" and any(l == last for l, _ in k[1][1]):
            ev = v
            co = dict(k[1][1])[last]
            cmpkey = s.mul(s.add(k[1], (0, ((last, co),)), -1), -co)
    if ev is None:
        ob(f"{kind}: {what}", None, where, "comparison with the previous processor not recognised")
        return None
    cond = b.restrict(adv, {ev: 0})
    if begin is not None:
        ob(f"{kind}: {what} first", begin == cond if not any(not p.flags(v) for v in sup(b, b.XOR(begin, cond))) else None, where,
           f"the first {w} is created under another condition than the others")
    else:
        # the key remembered at the start is none of a processor
        ini = it.initof.get(last)
        n = ini[0] & 0xFFFFFFFF if ini and not ini[1] else None
        r = None if n is None or others(t, it, adv) - {last} else True if n >= 0xFFFFFF00 else False if n < 0x10000 else None
        ob(f"{kind}: {what} first", r, where, f"the first {w} is not created if the key of its processor is {n}")
    return key, cmpkey, cond


def plain(t, p, v):
    """atom over whole fields of the records, or over none"""
    k = t.b.names[v]
    ls = [l for l in atom_leaves(t.s, k) if t.rec((0, ((l, 1),)))]
    return p.flags(v) or not ls or k[0] == "eq" and all(t.rec((0, ((l, 1),))) for l, _ in k[1][1])


def free(t, it, p, g):
    """conditions over the processors' data only"""
    for v in sup(t.b, g):
        k = t.b.names[v]
        if k[0] != "eq" and not p.flags(v) and not invariant(t, k):
            return False
    return True


def invariant(t, k):
    return all(t.s.leafs[l][0] in ("out", "mem", "op", "g", "alloca") and t.rec((0, ((l, 1),))) is None for l in atom_leaves(t.s, k)) \
        and not any(t.s.leafs[l][0] == "phi" for l in atom_leaves(t.s, k))


# ---- x86: keys are masked APIC identifiers
class Masks:
    def __init__(self, t):
        self.t = t
        self.b = BDD()
        f = t.m.di.bytefields("cpuinfo_x86_processor")
        self.name = {o: n for n, (o, sz) in f.items()}
        self.det = set()
        for i in t.M.det.insts:
            if i.op == "call" and getattr(i.callee, "name", None) == "cpuinfo_x86_init_processor":
                self.det |= set(origins(i.args[0]))
        # the amounts come before the identifier in the variable order, with their bits interleaved
        ns = ["llc"] + [n for n in self.name.values() if n.startswith("topology.") and "bits" in n or n.endswith(".apic_bits")]
        for k in range(4, -1, -1):
            for n in ns:
                self.b.atom((n, k))
        self.b.limit = 3000000

    def param(self, n):
        # shift amounts of 32 and more do not occur: registers are 32 bits wide
        return [self.b.atom((n, k)) for k in range(5)]

    def field(self, l):
        """name of the field of the detection result that a leaf is loaded from"""
        s = self.t.s
        k = s.leafs[l]
        if k[0] == "mem":
            o, off = s.base(k[1])
            v = s.lval.get(o)
            if v in self.det and not off[1]:
                return self.name.get(off[0])
        v = s.lval.get(l)
        if k[0] == "out" and isinstance(v, Inst) and v.op == "load":
            q, off, ix = root(v.ops[0])
            if q in self.det and not ix:
                return self.name.get(off)
        return None

    def leaf(self, k, l):
        t = self.t
        r = t.rec((0, ((l, 1),)))
        if r:
            return [self.b.atom(("x", r[2], i)) for i in range(32)]
        n = self.field(l)
        if n:
            return self.param(n)
        v = t.s.lval.get(l)
        if k[0] == "out" and isinstance(v, Inst) and v.op == "phi":
            return self.llc(v)
        return None

    def llc(self, ph):
        """a choice between fields: the sharing width of the last level cache, judged separately"""
        ns = set()
        for x, _ in ph.inc:
            for o in origins(x):
                if isinstance(o, Inst) and o.op == "load":
                    q, off, ix = root(o.ops[0])
                    if q in self.det and not ix and self.name.get(off, "").endswith("apic_bits"):
                        ns.add(self.name[off])
                        continue
                if getattr(o, "kind", None) in ("int", "zero"):
                    continue
                return None
        return self.param("llc") if len(ns) > 1 else None

    def mask(self, f):
        """[mask bit functions] if the form is the APIC id with some bits cleared, None otherwise"""
        b = self.b
        bv = BV(self.t.s, b, 32, self.leaf)
        try:
            w = bv.form(f)
        except Budget:
            return None
        if w is None:
            return None
        out = []
        for i, x in enumerate(w):
            vi = b.index.get(("x", "apic_id", i))
            sv = sup(b, x)
            if any(b.names[v][0] == "x" and v != vi for v in sv):
                return None
            if vi is None or vi not in sv:
                if x:
                    return None
                out.append(0)
                continue
            if b.restrict(x, {vi: 0}):
                return None
            out.append(b.restrict(x, {vi: 1}))
        return out

    def ones(self, n):
        """(1 << n) - 1"""
        bv = BV(self.t.s, self.b, 32, None)
        return bv.addv(bv.op("shl", bv.const(1), (self.param(n) + [0] * 27)), bv.const(0xFFFFFFFF))

    def spec(self, kind):
        b = self.b
        bv = BV(self.t.s, b, 32, None)

        def keep(length, offset):
            return [b.NOT(v) for v in bv.op("shl", self.ones(length), self.param(offset) + [0] * 27)]
        core = keep("topology.thread_bits_length", "topology.thread_bits_offset")
        pack = [b.AND(p, q) for p, q in zip(core, keep("topology.core_bits_length", "topology.core_bits_offset"))]
        if kind == "cores":
            return core
        if kind == "packages":
            return pack
        if kind == "clusters":
            return [b.OR(p, b.NOT(q)) for p, q in zip(pack, self.ones("llc"))]
        return [b.NOT(q) for q in self.ones(f"cache.{kind[:-7]}.apic_bits")]


def x86(t, ob):
    s, b = t.s, t.b
    mk = Masks(t)
    cnt = counting(t)
    fill = {}
    for it in t.its:
        pr = procs(t, it)
        if pr is None:
            continue
        for kind, field in LINK.items():
            for x, g, st in links(t, it, kind, pr[2], field):
                e = t.elem(x)
                a = advance(t, it, e[2]) if e else None
                if a:
                    fill[kind] = (it, a[0], st.inst.loc())
    conds = {"count": [], "fill": []}
    for kind in LINK:
        for what, src in (("count", cnt), ("fill", fill)):
            if kind not in src:
                ob(f"{kind}: {what}", None, "src/x86/linux/init.c", "loop not found")
                continue
            it, c = src[kind][:2]
            where = phi_loc(t, it, c)
            ki = keyinfo(t, it, c, ob, kind, what, where)
            if ki is None:
                continue
            key, cmpkey, cond = ki
            w = WORD[kind]
            spec = mk.spec(kind)
            for nm, f in (("remembered", key), ("compared", cmpkey)):
                m = mk.mask(f)
                r = None if m is None else m == spec
                ob(f"{kind}: {what} {nm} key", r, where, f"the pass that {what}s {w} objects groups processors by other bits of the APIC id than "
                   f"those of the {w}")
            size = f"cache.{kind[:-7]}.size" if kind.endswith("caches") else None
            zero, ok = None, True
            for v in sup(b, cond):
                ns = {mk.field(l) for l in atom_leaves(s, b.names[v])} - {None}
                if ns and ns != {size}:
                    ok = False
                elif ns:
                    zero = v
            if ok and size:
                if zero is None:
                    ok = False
                elif b.names[zero][0] == "eq" and b.names[zero][1][0] == 0 and len(b.names[zero][1][1]) == 1:
                    ok = b.restrict(cond, {zero: 1}) == 0
                    cond = b.restrict(cond, {zero: 0})
                else:
                    ok = None
            ob(f"{kind}: {what} condition", ok, where, f"{w} objects are {what}ed under another condition than their existence")
            if ok:
                conds[what].append((kind, it, cond, where))
    marks = usable(t, conds, ob)
    tests = [x for x in conds["fill"] if any(Pass(t, x[1]).flags(v) for v in sup(b, x[2]))]
    for kind, it, cond, where in tests[:1]:
        counted(t, cnt, ob, it, cond, where, marks)
    if not tests and "processors" in cnt:
        it, c = cnt["processors"]
        p = Pass(t, it)
        fv = [v for v in sup(b, p.split(c) or 0) if p.flags(v)]
        ob("processors: counted", len(fv) == 1 and len(marks) == 1 and bit_test(t, fv[0], marks[0][2]) or None, phi_loc(t, it, c),
           "counting of the usable processors not recognised")
    llc_choice(t, mk, ob)


def marking(t):
    """where processors are marked as usable: (loop, store, bit, index of the loop)"""
    s = t.s
    marks = []
    for it in record_loops(t):
        for st in it.stores:
            r = t.rec(s.leaf(("mem", st.addr, st.size))) if st.size is not None else None
            if r and r[2] == "flags" and len(st.val) == 1:
                f = next(iter(st.val))
                if len(f[1]) == 1 and s.leafs[f[1][0][0]][:2] == ("op", "or"):
                    bit = [x[0] for x in s.leafs[f[1][0][0]][2:4] if not x[1]]
                    ivs = [l for l in it.counters if it.initof[l] == (0, ()) and list(it.nextof[l]) == [(1, ((l, 1),))]]
                    if bit and len(ivs) == 1:
                        marks.append((it, st, bit[0], ivs[0]))
    return marks


def usable(t, conds, ob):
    """both passes look at the processors marked as usable, and at all of them"""
    s, b = t.s, t.b
    marks = marking(t)
    for what, lst in conds.items():
        for kind, it, cond, where in lst:
            ivs = [l for l in it.counters if it.initof[l] == (0, ()) and list(it.nextof[l]) == [(1, ((l, 1),))]]
            key = f"{kind}: {what} usable"
            text = f"the pass that {what}s {WORD[kind]} objects does not look at exactly the usable processors"
            if len(ivs) != 1 or len(marks) != 1:
                ob(key, None, where, text)
                continue
            mit, st, bit, iv = marks[0]
            want = Ren(s, {iv: (0, ((ivs[0], 1),))}).bdd(st.guard)
            if what == "fill" or any(bit_test(t, v, bit) for v in sup(b, cond)):
                # the mark itself is tested: within the bounds of the marking loop
                p = Pass(t, it)
                fv = [v for v in sup(b, cond) if p.flags(v)]
                wv = [v for v in sup(b, want) if p.flags(v)]
                bound = exists(b, want, wv)
                r = None
                if len(fv) == 1:
                    r = bit_test(t, fv[0], bit) and b.restrict(cond, {fv[0]: 0}) == 0 and b.restrict(cond, {fv[0]: 1}) == bound
                elif not fv:
                    r = True if prefix(t, it, ivs[0], cond) else False if cond in (bound, it.again()) else None
            else:
                r = alike(t, Pass(t, it), cond, want)
            ob(key, r, where, text)
    return marks


def prefix(t, it, iv, cond):
    """a loop over the number of usable processors, after they were sorted to the front"""
    s, b = t.s, t.b
    i = (0, ((iv, 1),))
    if not any(cond in (s.lt(i, n, "u"), b.NOT(s.eqatom(s.add(i, n, -1)))) for n in counts_published(t).get("processors", ())):
        return False
    return any(i.op == "call" and callee(i) == "qsort" and reaches(i.bb, it.l.header) and not reaches(it.l.header, i.bb)
               for i in t.M.det.insts)


def reaches(x, y):
    seen, todo = set(), [x]
    while todo:
        z = todo.pop()
        if z is y:
            return True
        if z not in seen:
            seen.add(z)
            todo += z.term.succs
    return False


def alike(t, p, x, y):
    """do two conditions select the same processors? None if the analysis cannot tell"""
    b = t.b
    if x == y:
        return True
    env = [{v for v in sup(b, f) if not p.flags(v)} for f in (x, y)]
    x, y = flagbits(t, p, x), flagbits(t, p, y)
    if x is None or y is None:
        return None
    if x == y:
        return True
    return False if env[0] == env[1] else None


def flagbits(t, p, f):
    """tests of the flags as functions of their bits"""
    b = t.b

    def leaf(k, l):
        r = t.rec((0, ((l, 1),)))
        return [b.atom(("flag", i)) for i in range(32)] if r and r[2] == "flags" else None
    bv = BV(t.s, b, 32, leaf)
    sub = {}
    for v in sup(b, f):
        if not p.flags(v):
            continue
        k = b.names[v]
        w = bv.form(k[1]) if k[0] == "eq" else None
        if w is None:
            return None
        r = 1
        for z in w:
            r = b.AND(r, b.NOT(z))
        sub[v] = r
    return b.compose(f, sub)


def counted(t, cnt, ob, it2, cond, where2, marks):
    """the processors that are counted are those that the later passes look at"""
    s, b = t.s, t.b
    if "processors" not in cnt:
        ob("processors: counted", None, where2, "counting loop not found")
        return
    it, c = cnt["processors"]
    where = phi_loc(t, it, c)
    text = "the processors that are counted are not those that the later passes treat as usable"
    p = Pass(t, it)
    adv = p.split(c)
    iv = [[l for l in i.counters if i.initof[l] == (0, ()) and list(i.nextof[l]) == [(1, ((l, 1),))]] for i in (it, it2)]
    mem = {l for v in sup(b, adv or 0) for l in atom_leaves(s, b.names[v]) if (t.rec((0, ((l, 1),))) or ("", "", ""))[2] == "flags"}
    if adv is None or len(iv[0]) != 1 or len(iv[1]) != 1 or len(mem) != 1:
        ob("processors: counted", None, where, text)
        return
    k = s.leafs[mem.pop()]
    later = Ren(s, {iv[1][0]: (0, ((iv[0][0], 1),))}).bdd(cond)
    p2 = Pass(t, it)
    want = 0
    fb = flagbits(t, p2, later)
    ab = flagbits(t, p2, adv)
    fin = t.final(it, k[1], k[2])
    if fb is None or ab is None or fin is None:
        ob("processors: counted", None, where, text)
        return

    def leaf(key, l):
        r = t.rec((0, ((l, 1),)))
        return [b.atom(("flag", i)) for i in range(32)] if r and r[2] == "flags" else None
    bv = BV(s, b, 32, leaf)
    for f, g in fin.items():
        w = bv.form(f)
        h = flagbits(t, p2, g)
        if w is None or h is None:
            ob("processors: counted", None, where, text)
            return
        sub = {b.index[("flag", i)]: w[i] for i in range(32) if ("flag", i) in b.index}
        want = b.OR(want, b.AND(h, b.compose(fb, sub)))
    own = [m for m in marks if m[0].l.header is it.l.header]
    if own:
        # no processor was marked before
        bits = 0
        for m in own:
            bits |= m[2]
        for m in marks:
            if m not in own:
                bits &= ~m[2]
        zero = {b.index["flag", i]: 0 for i in range(32) if bits >> i & 1 and ("flag", i) in b.index}
        ab, want = b.restrict(ab, zero), b.restrict(want, zero)
    r = True
    if ab != want:
        env = [{v for v in sup(b, f) if b.names[v][0] != "flag"} for f in (ab, want)]
        r = False if env[0] == env[1] else None
    ob("processors: counted", r, where, text)


def record_loops(t):
    """loops that write to the records, apart from those that fill the published lists"""
    recs = {t.s.lval.get(l) for l in t.records()} - {None}
    recs = {o for r in recs for o in origins(r)}
    for l in t.loops:
        if not any(it.l.header is l.header for it in t.its) and not l.inner and any(
                i.op == "store" and recs & set(origins(root(i.ops[1])[0])) for bb in l.blocks for i in bb.insts):
            it = Iteration(t.s, t.M.det, l, t.order)
            it.counters = t.counters(it)
            yield it


def exists(b, f, vs):
    for v in vs:
        f = b.OR(b.restrict(f, {v: 0}), b.restrict(f, {v: 1}))
    return f


def bit_test(t, v, bit):
    """is the atom "this bit of the flags is set"?"""
    k = t.b.names[v]
    if k[0] != "eq" or k[1][0] != -bit or len(k[1][1]) != 1 or k[1][1][0][1] != 1:
        return False
    o = t.s.leafs[k[1][1][0][0]]
    return o[:2] == ("op", "and") and (bit, ()) in o[2:4]


def phi_loc(t, it, c):
    v = t.s.lval.get(c)
    return v.loc() if isinstance(v, Inst) and v.line else it.l.header.term.loc()


def llc_choice(t, mk, ob):
    """the sharing width of the last level cache is the one of the highest level that exists"""
    want = ["cache.l4", "cache.l3", "cache.l2", "cache.l1d"]
    for i in t.M.det.insts:
        if i.op != "phi" or mk.llc(i) is None:
            continue
        # follow the tests: (size field, field taken)
        alts = {}
        from vf.vflow import VFlow  # noqa: F401
        for x, pred in i.inc:
            for o in origins(x):
                n = None
                if isinstance(o, Inst) and o.op == "load":
                    q, off, ix = root(o.ops[0])
                    n = mk.name.get(off)
                alts[pred] = n
        r = chain(t, mk, i, alts)
        ob("clusters: last level cache", r, i.loc() if i.line else "src/x86/linux/init.c",
           "clusters are not formed by the highest cache level that exists")
        return
    ob("clusters: last level cache", None, "src/x86/linux/init.c", "choice of the last level cache not recognised")


def chain(t, mk, ph, alts):
    """decide which field is taken for each combination of existing levels by walking the tests forward"""
    order = ["l4", "l3", "l2", "l1d"]
    doms = common_dominator(t, ph)
    if doms is None:
        return None
    for n in range(16):
        have = {lv: bool(n >> k & 1) for k, lv in enumerate(order)}
        cur, prev, steps = doms, None, 0
        while cur is not ph.bb:
            steps += 1
            if steps > 40:
                return None
            tm = cur.term
            if tm.op != "br":
                return None
            if len(tm.succs) == 1:
                prev, cur = cur, tm.succs[0]
                continue
            v = test(t, mk, tm.ops[0], have)
            if v is None:
                return None
            prev, cur = cur, tm.succs[0 if v else 1]
        got = value(mk, next((x for x, p in ph.inc if p is prev), None), have, t, prev)
        if got == "?":
            return None
        want = next((f"cache.{lv}.apic_bits" for lv in order if have[lv]), None)
        if got != want and (want or not (got or "").endswith(".apic_bits")):
            return False
    return True


def value(mk, x, have, t, prev, depth=0):
    for o in [x]:
        if getattr(o, "kind", None) in ("int", "zero"):
            return None
        if isinstance(o, Inst) and o.op == "load":
            q, off, ix = root(o.ops[0])
            return mk.name.get(off, "?")
        if isinstance(o, Inst) and o.op == "select" and depth < 8:
            v = test(t, mk, o.ops[0], have)
            return "?" if v is None else value(mk, o.ops[1 if v else 2], have, t, prev, depth + 1)
    return "?"


def test(t, mk, c, have):
    """value of a comparison of a cache size with zero"""
    if isinstance(c, Inst) and c.op in ("and", "or", "xor"):
        x, y = (test(t, mk, o, have) for o in c.ops)
        if x is None or y is None:
            return None
        return {"and": x and y, "or": x or y, "xor": x != y}[c.op]
    if isinstance(c, Inst) and c.op == "select":
        x = test(t, mk, c.ops[0], have)
        return None if x is None else test(t, mk, c.ops[1 if x else 2], have)
    if getattr(c, "kind", None) in ("int", "zero"):
        return bool(getattr(c, "val", 0))
    if isinstance(c, Inst) and c.op == "icmp" and c.pred in ("eq", "ne"):
        for x, y in (c.ops, c.ops[::-1]):
            if getattr(y, "kind", None) in ("int", "zero") and not getattr(y, "val", 0) and isinstance(x, Inst) and x.op == "load":
                q, off, ix = root(x.ops[0])
                n = mk.name.get(off, "")
                if q in mk.det and n.endswith(".size"):
                    lv = n.split(".")[1]
                    if lv in have:
                        return have[lv] == (c.pred == "ne")
    return None


def common_dominator(t, ph):
    """the block where the tests start: the nearest block from which all ways lead to the phi"""
    preds = {}
    for bb in t.M.det.blocks:
        for x in bb.succs() if callable(bb.succs) else bb.succs:
            preds.setdefault(x, set()).add(bb)
    region = {ph.bb}
    frontier = set(preds.get(ph.bb, ()))
    for _ in range(40):
        if len(frontier) == 1:
            return next(iter(frontier))
        # move the block back whose successors are all inside the region
        nxt = None
        for f in frontier:
            su = f.succs() if callable(f.succs) else f.succs
            if all(x in region or x in frontier for x in su) and not all(x in region for x in su):
                continue
            if all(x in region for x in su):
                nxt = f
                break
        if nxt is None:
            return None
        region.add(nxt)
        frontier.discard(nxt)
        frontier |= set(preds.get(nxt, ())) - region
    return None


# ---- ARM: equal recurrences
class Ren:
    """renames the loop-carried values of one loop to those of another"""

    def __init__(self, s, m):
        self.s, self.m = s, m
        self.memo = {}

    def form(self, f):
        r = (f[0], ())
        for l, c in f[1]:
            r = self.s.add(r, self.leaf(l), c)
        return r

    def leaf(self, l):
        if l in self.m:
            return self.m[l]
        if l in self.memo:
            return self.memo[l]
        k = self.s.leafs[l]
        r = (0, ((l, 1),))
        if k[0] == "op":
            r = self.s.binop(k[1], self.form(k[2]), self.form(k[3]), 32)
        elif k[0] == "mem":
            f = self.form(k[1])
            r = self.s.leaf(("mem", f) + ((k[2],) if len(k) > 3 else k[2:]), l in self.s.ptr, self.s.lval.get(l))
        self.memo[l] = r
        return r

    def bdd(self, g):
        b = self.s.b
        sub = {}
        for v in sup(b, g):
            k = b.names[v]
            if k[0] == "eq":
                sub[v] = self.s.eqatom(self.form(k[1]))
            elif k[0] in ("ult", "slt"):
                sub[v] = self.s.lt(self.form(k[1]), self.form(k[2]), k[0][0])
        return b.compose(g, sub)

    def gv(self, x):
        out = {}
        for f, g in x.items():
            r = self.form(f)
            out[r] = self.s.b.OR(out.get(r, 0), self.bdd(g))
        return {f: g for f, g in out.items() if g}


def recurrences(t, a, c, ca, cc):
    """pairs of equal loop-carried values of loops a and c, if their counters ca and cc are: leaf of a -> form over c"""
    s = t.s
    m = {}
    for ia, ic in zip(decoded(t, a), decoded(t, c)):
        m[ia] = (0, ((ic, 1),))
    # memory of the second loop with version numbers dropped
    idc = Ren(s, {ic: (0, ((ic, 1),)) for ic in decoded(t, c)})
    m[ca] = (a.initof[ca][0] - c.initof[cc][0], ((cc, 1),))
    used = {cc}
    progress = True
    while progress:
        progress = False
        for x in a.nextof:
            if x in m or x not in a.initof:
                continue
            for y in c.nextof:
                if y not in c.initof or y in used:
                    continue
                k = 0
                if a.initof[x][1] == c.initof[y][1]:
                    k = a.initof[x][0] - c.initof[y][0]
                elif not (unused(t, a, ca, x) and unused(t, c, cc, y)):
                    continue
                mm = dict(m)
                mm[x] = (k, ((y, 1),))
                na = Ren(s, mm).gv(a.nextof[x])
                nc = {s.add(f, (k, ())): g for f, g in idc.gv(c.nextof[y]).items()}
                if na == nc:
                    m = mm
                    used.add(y)
                    progress = True
                    break
    na = Ren(s, m).gv(a.nextof[ca])
    nc = {s.add(f, (m[ca][0], ())): g for f, g in idc.gv(c.nextof[cc]).items()}
    return m, na == nc


def unused(t, it, c, x):
    """until the counter moves, the value x decides nothing about it"""
    s, b = t.s, t.b
    e = s.eqatom(s.add((0, ((c, 1),)), it.initof[c], -1))
    for f, g in it.nextof[c].items():
        h = b.restrict(b.AND(g, e), {b.index[k]: 1 for k in b.support(e)})
        if any(x in atom_leaves(s, k) for k in b.support(h)):
            return False
    return True


def decoded(t, it):
    """leaves of the local results of the cache decoder in this loop"""
    out = []
    for i in t.M.det.insts:
        if i.op == "call" and getattr(i.callee, "name", None) == "cpuinfo_arm_decode_cache" and i.bb in it.l.blocks:
            for x in i.args[-2:]:
                try:
                    v = it.get(x)
                except KeyError:
                    continue
                for f in v:
                    out.append(f[1][0][0])
    return out


def arm(t, ob):
    s, b = t.s, t.b
    cnt = counting(t)
    fill = {}
    for it in t.its:
        pr = procs(t, it)
        if pr is None:
            for st in it.stores:
                e = t.elem(st.addr) if st.size is not None else None
                if e and e[0] == "uarchs" and len(e[2][1]) == 1 and e[2][1][0][0] in it.counters:
                    fill["uarchs"] = (it, e[2][1][0][0])
            continue
        for kind, field in LINK.items():
            for x, g, st in links(t, it, kind, pr[2], field):
                e = t.elem(x)
                a = advance(t, it, e[2]) if e else None
                if a:
                    fill.setdefault(kind, (it, a[0]))
    cluster.counted(t, cluster.Groups(t), cnt, fill, ob)
    bounded(t, cnt, ob)
    for kind in ("uarchs", "l2_caches"):
        if kind not in cnt or kind not in fill:
            ob(f"{kind}: counted as filled", None, "src/arm/linux/init.c", "loop not found")
            continue
        (a, ca), (c, cc) = cnt[kind], fill[kind]
        m, same = recurrences(t, a, c, ca, cc)
        where = phi_loc(t, a, ca)
        r = True if same else None
        if not same:
            # positive evidence: both conditions are over values known in both loops, and differ
            ga, gc = Pass(t, a).split(ca), Pass(t, c).split(cc)
            if ga is not None and gc is not None:
                ra = Ren(s, m).bdd(ga)
                rc = Ren(s, {ic: (0, ((ic, 1),)) for ic in decoded(t, c)}).bdd(gc)
                known = {l for f in m.values() for l, _ in f[1]}
                d = b.XOR(ra, rc)
                vs = {l for v in sup(b, d) for l in atom_leaves(s, b.names[v]) if s.leafs[l][0] == "phi"}
                if d and all(l in known for l in vs):
                    r = False
        ob(f"{kind}: counted as filled", r, where, f"the passes that count and that fill the {WORD[kind]} list create elements "
           "under different conditions")
        if kind == "uarchs":
            indexes(t, a, ca, ob)
            got = []
            for what, it, x in (("count", a, ca), ("fill", c, cc)):
                ki = keyinfo(t, it, x, ob, kind, what, phi_loc(t, it, x))
                if ki is None:
                    continue
                for nm, f in (("remembered", ki[0]), ("compared", ki[1])):
                    r = t.rec(f)
                    ob(f"{kind}: {what} {nm} key", None if r is None else r[2] == "uarch", phi_loc(t, it, x),
                       "entries are not formed by the microarchitecture of the processors")
                got.append((it, ki[2]))
            if len(got) == 2:
                (i1, g1), (i2, g2) = got
                iv = [[l for l in i.counters if i.initof[l] == (0, ()) and list(i.nextof[l]) == [(1, ((l, 1),))]] for i in (i1, i2)]
                r = None
                if len(iv[0]) == 1 == len(iv[1]):
                    r = alike(t, Pass(t, i2), Ren(s, {iv[0][0]: (0, ((iv[1][0], 1),))}).bdd(g1), g2)
                counted(t, cnt, ob, i2, g2, phi_loc(t, c, cc), marking(t))
                ob(f"{kind}: usable", r, phi_loc(t, c, cc), "the passes that count and fill the microarchitecture list look at "
                   "different processors")


def bounded(t, cnt, ob):
    """level 3 caches are created as long as their number allows, and not fewer than are counted"""
    s, b = t.s, t.b
    if "l3_caches" not in cnt:
        ob("l3_caches: bounded", None, "src/arm/linux/init.c", "loop not found")
        return
    a, ca = cnt["l3_caches"]
    for f, g in a.nextof[ca].items():
        d = s.add(f, (0, ((ca, 1),)), -1)
        ok = None if d[1] and f[1] else (d[0] if not d[1] else f[0]) in (0, 1)
        ob("l3_caches: step", ok, phi_loc(t, a, ca), "level 3 caches are counted that are not filled in")
    pub = counts_published(t).get("l3_caches", set())
    for it in t.its:
        for st in it.stores:
            e = t.elem(st.addr) if st.size is not None else None
            if not e or e[0] != "l3_caches":
                continue
            x = e[2]
            ok = None
            if len(pub) == 1:
                n = next(iter(pub))
                rel = [k for k in b.support(st.guard) if k[0] == "ult" and {k[1], k[2]} == {x, n} or
                       k[0] == "eq" and k[1] in (s.add(x, n, -1), s.add(n, x, -1))]
                lt = s.lt(x, n, "u")
                if b.AND(st.guard, b.NOT(lt)) == 0 or b.AND(b.AND(st.guard, b.NOT(s.eqatom(s.add(x, n, -1)))), s.lt(n, x, "u")) == 0 and \
                        b.AND(st.guard, s.eqatom(s.add(x, n, -1))) == 0:
                    ok = True
                elif rel:
                    ok = False
                elif len(x[1]) == 1 and x[1][0][0] in it.nextof:
                    ga, gc = Pass(t, a).split(ca), Pass(t, it).split(x[1][0][0])
                    free = [{l for k in b.support(g) for l in atom_leaves(s, k) if l in i.nextof and l not in i.counters} if g is not None else None
                            for i, g in ((a, sum_steps(t, a, ca)), (it, gc))]
                    if free[0] and free[1] == set():
                        ok = False
            ob("l3_caches: bounded", ok, st.inst.loc(), "a level 3 cache is written beyond the number that was counted")


def sum_steps(t, it, c):
    """condition under which the counter changes"""
    r = 0
    for f, g in it.nextof[c].items():
        if f != (0, ((c, 1),)):
            r = t.b.OR(r, g)
    return r


def indexes(t, it, c, ob):
    """the microarchitecture index of each processor is the one of its element"""
    s, b = t.s, t.b
    for st in it.stores:
        if st.size is None:
            continue
        r = t.rec(s.leaf(("mem", st.addr, st.size)))
        if not r or r[2] != "uarch_index":
            continue
        for v, h in st.val.items():
            ok = None
            for f, g in it.nextof[c].items():
                k = b.AND(b.AND(g, h), st.guard)
                if k:
                    want = s.add(f, (-1 - it.initof[c][0], ()))
                    d = s.add(v, want, -1)
                    ok = (d == (0, ())) if not d[1] else None
                    ob("uarchs: index", ok, st.inst.loc(), "the microarchitecture index of a processor is not the one of the element "
                       "created for it")


def analyse(name):
    t = Topo(build.LINUX[name])
    out = []

    def ob(key, ok, where, text):
        out.append((key, ok, where, text if not ok else "", name))
    (x86 if t.cfg.arch == "x86" else arm)(t, ob)
    return out


def main():
    ck = check.Check(
        "T05", "other",
        technique="loop summarisation with guarded linear forms; key masks compared as bit vectors of Boolean functions; matching of "
                  "recurrences between the counting and the filling loop",
        rule="both passes create an element exactly when the key of a usable processor differs from the previous one's, and both use "
             "the same key",
        assumptions=["bit field widths reported by CPUID are below 32", "records are sorted and usable ones come first"])
    for r in pmap(analyse, CFGS):
        for o in uniq(r):
            if "last level" not in o[0]:
                ck.obligation(*o)
    ck.finish(150)


if __name__ == "__main__":
    check.main(main)
