"""One iteration of a loop as guarded linear forms over the state at its start.

A value is a map {linear form: condition}; a linear form is a constant plus multiples of leaves (loop-carried values,
values from outside of the loop, memory contents at the start of the iteration, results of calls and other operators).
Conditions are BDDs over comparisons of forms.  Integer widths are ignored: counters are assumed not to wrap, except that the
initial all-ones value is -1."""
from .bdd import BDD
from .ir import Arg, Const, Function, Global, Inst
from .util import callee

LIMIT = 48
NARROW = 1


class Loop:
    def __init__(self, header, blocks, back):
        self.header, self.blocks, self.back = header, blocks, back
        self.inner = []


def loops_of(fn):
    """all natural loops, outermost first"""
    state, back = {}, []
    st = [(fn.entry, iter(fn.entry.succs))]
    state[fn.entry] = 1
    order = []
    while st:
        bb, it = st[-1]
        for s in it:
            if s not in state:
                state[s] = 1
                st.append((s, iter(s.succs)))
                break
            if state[s] == 1:
                back.append((bb, s))
        else:
            state[bb] = 2
            order.append(bb)
            st.pop()
    order.reverse()
    by = {}
    for t, h in back:
        body = by.setdefault(h, {h})
        w = [t]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w += x.preds
    res = [Loop(h, b, {(t, hh) for t, hh in back if hh is h}) for h, b in by.items()]
    for l in res:
        l.inner = [k for k in res if k is not l and k.header in l.blocks]
    pos = {bb: k for k, bb in enumerate(order)}
    res.sort(key=lambda l: (-len(l.blocks), pos[l.header]))
    return res, order


class Sym:
    def __init__(self, module):
        self.m = module
        self.b = BDD()
        self.leafs = []            # id -> key
        self.lid = {}
        self.lval = {}             # leaf id -> Value
        self.ptr = set()           # leaf ids that are object addresses
        self.omemo = {}

    # ---- leaves and forms
    def leaf(self, key, ptr=False, val=None):
        i = self.lid.get(key)
        if i is None:
            i = len(self.leafs)
            self.leafs.append(key)
            self.lid[key] = i
            if val is not None:
                self.lval[i] = val
        if ptr:
            self.ptr.add(i)
        return (0, ((i, 1),))

    @staticmethod
    def add(x, y, k=1):
        d = dict(x[1])
        for l, c in y[1]:
            d[l] = d.get(l, 0) + k * c
        return (x[0] + k * y[0], tuple(sorted((l, c) for l, c in d.items() if c)))

    @staticmethod
    def mul(x, k):
        if not k:
            return (0, ())
        return (x[0] * k, tuple((l, c * k) for l, c in x[1]))

    def base(self, f):
        """(object leaf, offset form)"""
        ps = [l for l, c in f[1] if c == 1 and l in self.ptr]
        if len(ps) != 1:
            return None, f
        return ps[0], (f[0], tuple(x for x in f[1] if x[0] != ps[0]))

    # ---- guarded values
    @staticmethod
    def one(f):
        return {f: 1}

    def const(self, k):
        return {(k, ()): 1}

    def map2(self, x, y, fn, key):
        out = {}
        for a, g in x.items():
            for c, h in y.items():
                k = self.b.AND(g, h)
                if k:
                    r = fn(a, c)
                    out[r] = self.b.OR(out.get(r, 0), k)
                    if len(out) > LIMIT:
                        return {self.leaf(("big", key)): 1}
        return out

    def ite(self, c, x, y):
        b = self.b
        if c == 1 or x == y:
            return x
        if c == 0:
            return y
        out = {}
        for f, g in x.items():
            k = b.AND(c, g)
            if k:
                out[f] = b.OR(out.get(f, 0), k)
        n = b.NOT(c)
        for f, g in y.items():
            k = b.AND(n, g)
            if k:
                out[f] = b.OR(out.get(f, 0), k)
        return out

    def cond_eq(self, x, y):
        r = 0
        for a, g in x.items():
            for c, h in y.items():
                k = self.b.AND(g, h)
                if k:
                    r = self.b.OR(r, self.b.AND(k, self.eqatom(self.add(a, c, -1))))
        return r

    def eqatom(self, d):
        if not d[1]:
            return 1 if d[0] == 0 else 0
        # addresses of objects are not null and distinct objects are distinct
        ps = [(l, c) for l, c in d[1] if l in self.ptr]
        if len(ps) == 1 and len(d[1]) == 1 and abs(ps[0][1]) == 1 and not self.nullable(ps[0][0]):
            return 0
        if d[1][0][1] < 0:
            d = self.mul(d, -1)
        return self.b.atom(("eq", d))

    def nullable(self, l):
        v = self.lval.get(l)
        return not (isinstance(v, (Global, Function)) or isinstance(v, Inst) and v.op == "alloca")

    def cmp(self, pred, x, y, key):
        b = self.b
        if pred in ("eq", "ne"):
            r = self.cond_eq(x, y)
            return r if pred == "eq" else self.neg(r, x, y)
        if pred in ("ugt", "ule", "sgt", "sle"):
            x, y = y, x
            pred = {"ugt": "ult", "ule": "uge", "sgt": "slt", "sle": "sge"}[pred]
        r = 0
        for a, g in x.items():
            for c, h in y.items():
                k = b.AND(g, h)
                if k:
                    r = b.OR(r, b.AND(k, self.lt(a, c, pred[0])))
        return r if pred in ("ult", "slt") else self.neg(r, x, y)

    def neg(self, r, x, y):
        return self.b.NOT(r)

    def lt(self, a, c, sign):
        if not a[1] and not c[1]:
            if sign == "u":
                m = 1 << 64
                return int(a[0] % m < c[0] % m)
            return int(a[0] < c[0])
        if sign == "u" and c == (0, ()):
            return 0
        if sign == "u" and c == (1, ()):
            return self.eqatom(a)
        if sign == "u" and a == (0, ()):
            return self.b.NOT(self.eqatom(c))
        if a == c:
            return 0
        return self.b.atom((sign + "lt", a, c))

    # ---- values
    def outside(self, v, depth=0):
        """value that does not change during the loop"""
        r = self.omemo.get(id(v))
        if r is None:
            r = self._outside(v, depth)
            self.omemo[id(v)] = r
        return r

    def _outside(self, v, depth):
        if isinstance(v, Const):
            if v.kind == "int":
                x = v.val
                n = v.ty.bits
                if n == 1:
                    return x & 1
                if n > 1 and x >> (n - 1):
                    x -= 1 << n
                return self.const(x)
            if v.kind in ("null", "zero"):
                return self.const(0) if not (v.ty.kind == "int" and v.ty.bits == 1) else 0
            if v.kind == "cexpr" and v.op == "gep":
                return self.map2(self.outside(v.ops[0]), self.const(v.off), self.add, id(v))
            if v.kind in ("undef", "poison"):
                f = self.leaf(("undef", id(v)))
                return self.b.atom(("undef", id(v))) if v.ty.kind == "int" and v.ty.bits == 1 else {f: 1}
            return {self.leaf(("const", id(v))): 1}
        if isinstance(v, (Global, Function)):
            return {self.leaf(("g", v.name), True, v): 1}
        if isinstance(v, Inst) and depth < 40 and v.op in PURE:
            return self.pure(v, lambda o: self.outside(o, depth + 1))
        bit = v.ty.kind == "int" and v.ty.bits == 1
        key = ("out", v.uid if isinstance(v, Inst) else ("arg", v.index))
        if bit:
            return self.b.atom(key)
        return {self.leaf(key, v.ty.kind == "ptr", v): 1}

    def pure(self, i, get):
        op = i.op
        bit = i.ty.kind == "int" and i.ty.bits == 1
        if op == "icmp":
            if i.ops[0].ty.kind == "int" and i.ops[0].ty.bits == 1:
                x, y = get(i.ops[0]), get(i.ops[1])
                r = self.b.XOR(x, y)
                return self.b.NOT(r) if i.pred == "eq" else r if i.pred == "ne" else self.b.atom(("icmp", i.uid))
            return self.cmp(i.pred, get(i.ops[0]), get(i.ops[1]), i.uid)
        if op in ("freeze", "bitcast", "addrspacecast", "ptrtoint", "inttoptr"):
            return get(i.ops[0])
        if op in ("zext", "sext"):
            x = get(i.ops[0])
            if i.ops[0].ty.bits == 1:
                n = self.b.NOT(x)
                return {f: g for f, g in (((1 if op == "zext" else -1, ()), x), ((0, ()), n)) if g}
            return x
        if op == "trunc":
            x = get(i.ops[0])
            if i.ty.bits == 1:
                r = 0
                for f, g in x.items():
                    r = self.b.OR(r, self.b.AND(g, (f[0] & 1) if not f[1] else self.b.atom(("bit0", f))))
                return r
            return x
        if op == "select":
            c, x, y = (get(o) for o in i.ops)
            if bit:
                return self.b.ite(c, x, y)
            return self.ite(c, x, y)
        if op == "gep":
            r = get(i.ops[0])
            if i.off:
                r = self.map2(r, self.const(i.off), self.add, i.uid)
            for x, s in i.idx:
                r = self.map2(r, get(x), lambda a, c: self.add(a, c, s), i.uid)
            return r
        x, y = get(i.ops[0]), get(i.ops[1])
        if bit:
            if op == "and":
                return self.b.AND(x, y)
            if op == "or":
                return self.b.OR(x, y)
            if op == "xor":
                return self.b.XOR(x, y)
            return self.b.atom(("bop", i.uid))
        if op == "add":
            return self.map2(x, y, self.add, i.uid)
        if op == "sub":
            return self.map2(x, y, lambda a, c: self.add(a, c, -1), i.uid)
        return self.map2(x, y, lambda a, c: self.binop(op, a, c, i.ty.bits), i.uid)

    def binop(self, op, a, c, n):
        if op == "mul":
            if not a[1]:
                return self.mul(c, a[0])
            if not c[1]:
                return self.mul(a, c[0])
        if op == "shl" and not c[1] and 0 <= c[0] < 64:
            return self.mul(a, 1 << c[0])
        if op == "xor":
            if c == (-1, ()):
                return self.add((-1, ()), a, -1)
            if a == (-1, ()):
                return self.add((-1, ()), c, -1)
        if not a[1] and not c[1]:
            x, y = a[0], c[0]
            r = {"and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                 "lshr": lambda: (x % (1 << n)) >> y if 0 <= y < n else 0,
                 "udiv": lambda: (x % (1 << n)) // (y % (1 << n)) if y else 0,
                 "urem": lambda: (x % (1 << n)) % (y % (1 << n)) if y else 0}.get(op)
            if r is not None:
                return (r(), ())
        if op in ("and", "or") and a == c:
            return a
        if op in ("and", "or", "xor", "mul") and repr(c) < repr(a):
            a, c = c, a
        return self.leaf(("op", op, a, c))


PURE = {"icmp", "freeze", "bitcast", "addrspacecast", "ptrtoint", "inttoptr", "zext", "sext", "trunc", "select", "gep", "add",
        "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"}


class Store:
    __slots__ = ("guard", "addr", "size", "val", "inst", "ptrval")


class Iteration:
    """summary of one iteration of loop `l` of `fn`"""

    def __init__(self, s, fn, l, order):
        self.s, self.fn, self.l = s, fn, l
        self.stores = []
        self.ver = {}
        self.clobbers = []
        self.env = {}
        self.reach = {}
        self.edge = {}
        self.innerof = {}
        for k in l.inner:
            for bb in k.blocks:
                self.innerof.setdefault(bb, k)
        self.run([bb for bb in order if bb in l.blocks])

    def get(self, v):
        if isinstance(v, Inst) and v.bb in self.l.blocks:
            return self.env[v]
        return self.s.outside(v)

    def run(self, order):
        s, b = self.s, self.s.b
        l = self.l
        heads = {k.header: k for k in l.inner}
        pos = {bb: k for k, bb in enumerate(order)}
        lastexit = {}
        for k in l.inner:
            ex = [(x, t) for x in k.blocks for t in x.succs if t not in k.blocks and t in l.blocks]
            ex.sort(key=lambda e: (pos[e[0]], pos.get(e[1], 0)))
            lastexit[k] = ex
        backs = set(l.back)
        for k in l.inner:
            backs |= k.back
        for bb in order:
            if bb is l.header:
                c = 1
            else:
                c = 0
                for p in bb.preds:
                    if (p, bb) not in backs and p in l.blocks:
                        c = b.OR(c, self.edge.get((p, bb), 0))
            self.reach[bb] = c
            inner = heads.get(bb)
            if inner:
                self.havoc(inner)
            for i in bb.insts:
                if i.op != "phi":
                    break
                if bb is l.header or inner:
                    self.env[i] = self.fresh(i, "phi")
                else:
                    self.env[i] = self.merge(i, bb)
            for i in bb.insts:
                if i.op == "phi":
                    continue
                if i.op == "br":
                    if i.ops:
                        x = self.get(i.ops[0])
                        self.setedge(bb, i.succs[0], b.AND(c, x))
                        self.setedge(bb, i.succs[1], b.AND(c, b.NOT(x)))
                    else:
                        self.setedge(bb, i.succs[0], c)
                elif i.op == "switch":
                    x = self.get(i.ops[0])
                    rest = c
                    for val, t in i.cases:
                        n = i.ops[0].ty.bits
                        if val >> (n - 1):
                            val -= 1 << n
                        e = s.cond_eq(x, s.const(val))
                        self.setedge(bb, t, b.AND(c, e))
                        rest = b.AND(rest, b.NOT(e))
                    self.setedge(bb, i.succs[0], rest)
                elif i.op in ("ret", "unreachable"):
                    pass
                else:
                    v = self.step(i, c)
                    if v is not None:
                        self.env[i] = v
            for k, ex in lastexit.items():
                if ex and ex[-1][0] is bb:
                    # the loop is left through one of its exits
                    g = self.reach[k.header]
                    for e in ex[:-1]:
                        g = b.AND(g, b.NOT(self.edge.get(e, 0)))
                    self.edge[ex[-1]] = g

    def setedge(self, x, t, g):
        self.edge[(x, t)] = self.s.b.OR(self.edge.get((x, t), 0), g)

    def fresh(self, i, kind):
        if i.ty.kind == "int" and i.ty.bits == 1:
            return self.s.b.atom((kind, i.uid))
        return {self.s.leaf((kind, i.uid), i.ty.kind == "ptr", i): 1}

    def merge(self, i, bb):
        s, b = self.s, self.s.b
        bit = i.ty.kind == "int" and i.ty.bits == 1
        out = {}
        r = 0
        for x, p in i.inc:
            g = self.edge.get((p, bb), 0)
            if not g:
                continue
            v = self.get(x)
            if bit:
                r = b.OR(r, b.AND(g, v))
                continue
            for f, h in v.items():
                k = b.AND(g, h)
                if k:
                    out[f] = b.OR(out.get(f, 0), k)
        if bit:
            return r
        if len(out) > LIMIT:
            return self.fresh(i, "big")
        return out

    def havoc(self, k):
        """memory that an inner loop writes is unknown after it"""
        for bb in k.blocks:
            for i in bb.insts:
                if i.op == "store":
                    self.clobber(i.ops[1], i)
                elif i.op == "call":
                    for a in i.args:
                        if a.ty is not None and a.ty.kind == "ptr":
                            self.clobber(a, i)

    def clobber(self, p, inst):
        from .prov import root
        r, _, _ = root(p)
        try:
            v = self.get(r)
        except KeyError:
            return
        ext = getattr(self.s, "extent", None)
        if ext:
            # writes that stay inside of an array member
            try:
                own = self.get(p)
            except KeyError:
                own = {}
            sz = [ext(f) for f in own]
            if sz and all(sz):
                for f, n in zip(own, sz):
                    st = Store()
                    st.guard, st.addr, st.size, st.inst, st.ptrval = own[f], f, n, inst, False
                    st.val = {self.s.leaf(("copy", inst.uid)): 1}
                    self.stores.append(st)
                return
        for f in v:
            l, _ = self.s.base(f)
            if l is not None:
                self.ver[l] = self.ver.get(l, 0) + 1
                self.clobbers.append((l, inst))
                st = Store()
                st.guard, st.addr, st.size, st.val, st.inst, st.ptrval = 1, f, None, None, inst, False
                self.stores.append(st)

    def step(self, i, c):
        s, b = self.s, self.s.b
        op = i.op
        if op in PURE:
            return s.pure(i, self.get)
        if op == "alloca":
            return {s.leaf(("alloca", i.uid), True, i): 1}
        if op == "load":
            return self.load(i, self.get(i.ops[0]), i.size, c)
        if op == "store":
            v = self.get(i.ops[0])
            if not isinstance(v, dict):
                v = {f: g for f, g in (((1, ()), v), ((0, ()), b.NOT(v))) if g}
            for f, g in self.get(i.ops[1]).items():
                k = b.AND(c, g)
                if k:
                    self.put(k, f, i.size, v, i)
            return None
        if op == "call":
            nm = callee(i) or ""
            if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime") or nm.startswith("llvm.assume"):
                return None
            if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and self.memop(i, nm, c):
                return None
            if nm.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                x, y = (self.get(a) for a in i.args[:2])
                lt = s.cmp("ult" if nm[5] == "u" else "slt", x, y, i.uid)
                return s.ite(lt, x, y) if nm[6:9] == "min" else s.ite(lt, y, x)
            for a in i.args:
                if a.ty is not None and a.ty.kind == "ptr":
                    self.clobber(a, i)
            return self.fresh(i, "call") if i.ty.kind != "void" else None
        if i.ty.kind != "void":
            return self.fresh(i, op)
        return None

    def put(self, g, f, size, v, i):
        st = Store()
        st.guard, st.addr, st.size, st.val, st.inst = g, f, size, v, i
        st.ptrval = i.op == "store" and i.ops[0].ty.kind == "ptr"
        self.stores.append(st)

    def memop(self, i, nm, c):
        n = i.args[2]
        if not isinstance(n, Const) or n.kind != "int" or n.val > 4096:
            return False
        d = self.get(i.args[0])
        if "memset" in nm:
            v = i.args[1]
            if not (isinstance(v, Const) and v.kind in ("int", "zero", "null") and not getattr(v, "val", 0)):
                return False
            for f, g in d.items():
                k = self.s.b.AND(c, g)
                if k:
                    self.put(k, f, n.val, self.s.const(0), i)
            return True
        src = self.get(i.args[1])
        if len(src) != 1:
            return False
        sf = next(iter(src))
        # copy the cells that were written to the source, the rest is unknown
        cells = {}
        for st in self.stores:
            if st.size is None:
                continue
            df = self.s.add(st.addr, sf, -1)
            if not df[1] and 0 <= df[0] < n.val:
                if st.val is not None and st.size > 16:
                    for o in range(df[0], df[0] + st.size, 4):
                        cells[o] = 4
                else:
                    cells[df[0]] = st.size
        vals = []
        for o, sz in sorted(cells.items()):
            vals.append((o, sz, self.load(i, {self.s.add(sf, (o, ())): 1}, sz, c)))
        for f, g in d.items():
            k = self.s.b.AND(c, g)
            if not k:
                continue
            st = Store()
            st.guard, st.addr, st.size, st.val, st.inst, st.ptrval = k, f, n.val, {self.s.leaf(("copy", i.uid)): 1}, i, False
            self.stores.append(st)
            for o, sz, v in vals:
                self.put(k, self.s.add(f, (o, ())), sz, v, i)
        return True

    def load(self, i, addr, size, c):
        s, b = self.s, self.s.b
        out = {}
        bit = i.op == "load" and i.ty.kind == "int" and i.ty.bits == 1
        for f, g in addr.items():
            k = b.AND(g, c)
            if not k:
                continue
            for vf, vg in self.load1(i, f, size, k).items():
                out[vf] = b.OR(out.get(vf, 0), vg)
        if len(out) > LIMIT:
            return self.fresh(i, "big")
        if bit:
            r = 0
            for f, g in out.items():
                r = b.OR(r, b.AND(g, (f[0] & 1) if not f[1] else b.atom(("bit0", f))))
            return r
        return out

    def load1(self, i, f, size, g):
        s, b = self.s, self.s.b
        l, _ = s.base(f)
        out = {}
        rest = g
        for st in reversed(self.stores):
            if not rest:
                break
            sl, _ = s.base(st.addr)
            if sl != l:
                continue
            if st.size is None:
                # unknown writes before this point
                break
            h = b.AND(rest, st.guard)
            if not h:
                continue
            d = s.add(f, st.addr, -1)
            al = self.alias(d, size, st.size)
            if al == "no":
                continue
            if al == "exact":
                for vf, vg in st.val.items():
                    k = b.AND(h, vg)
                    if k:
                        out[vf] = b.OR(out.get(vf, 0), k)
                rest = b.AND(rest, b.NOT(st.guard))
                continue
            if al == "inside" and st.val == s.const(0):
                out[(0, ())] = b.OR(out.get((0, ()), 0), h)
                rest = b.AND(rest, b.NOT(st.guard))
                continue
            if al == "if":
                e = b.AND(h, s.eqatom(d))
                for vf, vg in st.val.items():
                    k = b.AND(e, vg)
                    if k:
                        out[vf] = b.OR(out.get(vf, 0), k)
                rest = b.AND(rest, b.NOT(e))
                continue
            x = s.leaf(("overlap", i.uid, st.inst.uid))
            out[x] = b.OR(out.get(x, 0), h)
            rest = b.AND(rest, b.NOT(h))
        if rest:
            v = self.ver.get(l, 0)
            key = ("mem", f, size) if not v else ("mem", f, size, self.l.header.index, v)
            x = s.leaf(key, i.op == "load" and i.ty.kind == "ptr", i)
            out[x] = b.OR(out.get(x, 0), rest)
        return out

    def alias(self, d, ls, ss):
        """how a load of ls bytes at distance d from a store of ss bytes relates to it"""
        if not d[1]:
            if d[0] >= ss or d[0] + ls <= 0:
                return "no"
            if d[0] == 0 and ls == ss:
                return "exact"
            return "inside" if d[0] >= 0 and d[0] + ls <= ss else "maybe"
        from math import gcd
        st = 0
        for _, c in d[1]:
            st = gcd(st, abs(c))
        if st <= 1:
            return "maybe"
        r = d[0] % st
        if r >= ss and r + ls <= st:
            return "no"
        if r == 0 and ls == ss:
            return "if"
        return "maybe"

    # ---- loop-carried values
    def phis(self):
        """[(phi, leaf form, initial value, next value)]"""
        b = self.s.b
        out = []
        for i in self.l.header.insts:
            if i.op != "phi":
                break
            bit = i.ty.kind == "int" and i.ty.bits == 1
            nxt, init = {}, []
            r = 0
            for x, p in i.inc:
                if (p, self.l.header) in self.l.back:
                    g = self.edge.get((p, self.l.header), 0)
                    v = self.get(x)
                    if bit:
                        r = b.OR(r, b.AND(g, v))
                        continue
                    for f, h in v.items():
                        k = b.AND(g, h)
                        if k:
                            nxt[f] = b.OR(nxt.get(f, 0), k)
                else:
                    init.append(self.s.outside(x))
            out.append((i, self.env[i], init, r if bit else nxt))
        return out

    def again(self):
        """condition of another iteration"""
        g = 0
        for e in self.l.back:
            g = self.s.b.OR(g, self.edge.get(e, 0))
        return g

    def show(self, f):
        s = self.s
        t = [str(f[0])] if f[0] or not f[1] else []
        for l, c in f[1]:
            k = s.leafs[l]
            v = s.lval.get(l)
            n = f"{k[0]}:{getattr(v, 'name', None) or k[1:]}"
            if k[0] == "mem":
                n = "[" + self.show(k[1]) + "]"
            if k[0] == "op":
                n = f"{k[1]}({self.show(k[2])},{self.show(k[3])})"
            t.append((f"{c}*" if c != 1 else "") + n)
        return " + ".join(t)
