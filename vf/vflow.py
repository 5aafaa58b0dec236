"""Forward data-flow analysis of LLVM IR over the domain of Boolean functions.

Every integer SSA value is abstracted, bit by bit, to a canonical Boolean function (a BDD) of the
function's inputs (arguments, memory on entry, results of external calls).  Values merge at control-flow
joins (no path is enumerated), blocks carry the Boolean function under which they are reached, loops
are havocked, and everything the domain cannot represent becomes an opaque input named after the
operation and its operands.  No code is executed and no solver is involved; equality of two abstract
values is equality of canonical node numbers.
"""
import random

from .bdd import BDD
from .ir import Arg, Const, Function, Global, Inst


class Ptr:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)     # ((guard, base, off), ...)

    def key(self):
        return ("P",) + self.alts

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.alts == o.alts

    def __hash__(self):
        return hash(self.alts)

    def __repr__(self):
        return f"Ptr{self.alts}"


class Agg:
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = tuple(elems)

    def key(self):
        return ("A",) + tuple(e.key() if isinstance(e, (Ptr, Agg)) else e for e in self.elems)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.elems == o.elems

    def __hash__(self):
        return hash(self.elems)


NULL = ("null",)


class Event:
    __slots__ = ("inst", "guard", "args", "result", "fn")


class VFlow:
    MAXSUP = 26

    def __init__(self, module, bdd=None, call_hook=None, load_hook=None, record=(), readonly_calls=(), quiet=()):
        self.m = module
        self.b = bdd or BDD()
        self.call_hook = call_hook
        self.load_hook = load_hook
        self.terms = {}            # bits tuple -> structured term
        self.mem = {}              # base -> {off: byte tuple}
        self.pmem = {}             # base -> {off: Ptr}
        self.ver = {}
        self.record = set(record)
        self.events = []
        self.opaque_sites = []
        self.depth = 0
        self.stores = []           # (inst, guard, ptr, value)
        self.log_stores = False

    # ---- words
    def const(self, val, n):
        return tuple(1 if (val >> i) & 1 else 0 for i in range(n))

    def is_const(self, w):
        return all(x < 2 for x in w)

    def cval(self, w):
        return sum(1 << i for i, x in enumerate(w) if x == 1)

    def opaque(self, key, n):
        w = tuple(self.b.atom(("bit", key, i)) for i in range(n))
        self.terms[w] = key
        return w

    def sup(self, *ws):
        s = set()
        b = self.b
        seen, st = set(), [x for w in ws for x in w]
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            s.add(b.var[n])
            if len(s) > 64 or len(seen) > 20000:
                return s
            st.append(b.lo[n])
            st.append(b.hi[n])
        return s

    def tables(self, p):
        """points into constant tables only"""
        for _, ba, _ in p.alts:
            g = self.m.globals.get(ba[1]) if ba[0] == "g" else None
            if g is None or not g.const:
                return False
        return bool(p.alts)

    def values(self, w, c, limit=32):
        """the constants that the word can be under c, with their conditions; None if there are too many"""
        b = self.b
        if len(self.sup(w)) <= 12 and len([x for x in w if x > 1]) > 5:
            return None
        cur = [(0, c)]
        for k, x in enumerate(w):
            if x < 2:
                cur = [(v | x << k, g) for v, g in cur]
                continue
            nx = []
            for v, g in cur:
                h = b.AND(g, x)
                if h:
                    nx.append((v | 1 << k, h))
                if h != g:
                    nx.append((v, b.AND(g, b.NOT(x))))
            if len(nx) > limit:
                return None
            cur = nx
        n = len(w)
        return [(v - (1 << n) if v >> (n - 1) else v, g) for v, g in cur]

    def decide(self, d, pure):
        """Verdict on a difference: True if it is impossible, False if some values of the inputs make it certain, None if
        it depends on values that the analysis does not know. `pure(key)`: the atom is a free input."""
        if d == 0:
            return True, {}
        b = self.b
        rest = {b.index[k] for k in b.support(d) if not pure(k)}
        if rest:
            d = b.forall(d, rest)
            if d == 0:
                return None, {}
        return False, b.sat_one(d)

    def evaluate(self, w, asg):
        """Value of the word for values of the atoms; products and sums are computed from their terms. None if some atom
        has no value. New values are added to asg, a function atom key -> value or None is asg[None]."""
        b = self.b
        r = 0
        for k, n in enumerate(w):
            while n > 1:
                key = b.names[b.var[n]]
                if key not in asg:
                    v = asg[None](key)
                    if v is None and key[0] == "bit" and isinstance(key[1], tuple):
                        t = key[1]
                        if t[0] == "mul":
                            p = 1
                            for f in t[2]:
                                x = self.evaluate(f, asg)
                                if x is None:
                                    return None
                                p *= x
                        elif t[0] == "lin":
                            p = t[2]
                            for f, c in t[3]:
                                x = self.evaluate(f, asg)
                                if x is None:
                                    return None
                                p += c * x
                        else:
                            return None
                        for j in range(t[1]):
                            asg[("bit", t, j)] = p >> j & 1
                    else:
                        if v is None:
                            return None
                        asg[key] = v
                n = b.hi[n] if asg[key] else b.lo[n]
            r |= n << k
        return r

    def same(self, x, y, guard, pure, tries=20):
        """Verdict on the equality of two words under the guard, as decide(); words that differ as polynomials are told apart
        by their values at some points."""
        b = self.b
        ds = [d for p, q in zip(x, y) if p != q for d in (b.AND(guard, b.XOR(p, q)),) if d]
        if not ds:
            return True, {}
        for d in ds:
            ok, ex = self.decide(d, pure)
            if ok is False:
                return ok, ex
        d = ds[0]
        rnd = random.Random(1)
        first = {k: v for k, v in b.sat_one(d).items() if pure(k)}
        for _ in range(tries):
            asg = dict(first)
            asg[None] = lambda k: rnd.randrange(2) if pure(k) else None
            g = self.evaluate((guard,), asg)
            p, q = self.evaluate(x, asg), self.evaluate(y, asg)
            if g == 1 and p is not None and q is not None and p != q:
                return False, {k: v for k, v in asg.items() if k is not None and pure(k)}
        return None, {}

    def w_ite(self, c, x, y):
        if c == 1:
            return x
        if c == 0:
            return y
        if x == y:
            return x
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            alts = {}
            for g, ba, o in x.alts:
                g = self.b.AND(c, g)
                if g:
                    alts[(ba, o)] = self.b.OR(alts.get((ba, o), 0), g)
            nc = self.b.NOT(c)
            for g, ba, o in y.alts:
                g = self.b.AND(nc, g)
                if g:
                    alts[(ba, o)] = self.b.OR(alts.get((ba, o), 0), g)
            return Ptr((g, ba, o) for (ba, o), g in alts.items())
        if isinstance(x, Agg) and isinstance(y, Agg):
            return Agg(self.w_ite(c, p, q) for p, q in zip(x.elems, y.elems))
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.b.ite(c, p, q) for p, q in zip(x, y))
        raise TypeError(f"ite of {x!r} {y!r}")

    def eq(self, x, y):
        b = self.b
        if self.is_const(y) or self.is_const(x) or len(self.sup(x, y)) <= self.MAXSUP:
            r = 1
            for p, q in zip(x, y):
                r = b.AND(r, b.NOT(b.XOR(p, q)))
                if r == 0:
                    break
            return r
        if x == y:
            return 1
        # opaque equality, but peel off shared constant bits
        k = tuple(sorted((x, y)))
        return b.atom(("eq", self.tkey(k[0]), self.tkey(k[1])))

    def ult(self, x, y):
        b = self.b
        if x == y:
            return 0
        if self.is_const(x) or self.is_const(y) or len(self.sup(x, y)) <= self.MAXSUP:
            r = 0
            for p, q in zip(x, y):        # LSB first
                if p == q:
                    continue
                r = b.ite(b.XOR(p, q), q, r)
            return r
        return b.atom(("ult", self.tkey(x), self.tkey(y)))

    def tkey(self, w):
        """structured name of a word, for readable keys"""
        if w in self.terms:
            return self.terms[w]
        if self.is_const(w):
            return self.cval(w)
        return ("w", w)

    def slt(self, x, y):
        # flip sign bits
        return self.ult(x[:-1] + (self.b.NOT(x[-1]),), y[:-1] + (self.b.NOT(y[-1]),))

    def icmp(self, pred, x, y):
        b = self.b
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.pcmp(pred, x, y)
        if pred == "eq":
            return self.eq(x, y)
        if pred == "ne":
            return b.NOT(self.eq(x, y))
        if pred == "ult":
            return self.ult(x, y)
        if pred == "ugt":
            return self.ult(y, x)
        if pred == "uge":
            return b.NOT(self.ult(x, y))
        if pred == "ule":
            return b.NOT(self.ult(y, x))
        if pred == "slt":
            return self.slt(x, y)
        if pred == "sgt":
            return self.slt(y, x)
        if pred == "sge":
            return b.NOT(self.slt(x, y))
        return b.NOT(self.slt(y, x))

    def pcmp(self, pred, x, y):
        b = self.b
        r = 0
        for g1, b1, o1 in x.alts:
            for g2, b2, o2 in y.alts:
                g = b.AND(g1, g2)
                if not g:
                    continue
                if b1 == b2:
                    c = {"eq": o1 == o2, "ne": o1 != o2, "ult": o1 < o2, "ule": o1 <= o2, "ugt": o1 > o2,
                         "uge": o1 >= o2, "slt": o1 < o2, "sle": o1 <= o2, "sgt": o1 > o2, "sge": o1 >= o2}[pred]
                    c = 1 if c else 0
                elif pred in ("eq", "ne"):
                    if b1 == NULL or b2 == NULL:
                        (bb, oo) = (b2, o2) if b1 == NULL else (b1, o1)
                        if bb[0] in ("alloca", "g", "fn") or (bb[0] == "argp"):
                            c = 0
                        else:
                            c = b.atom(("isnull", bb, oo))
                    elif b1[0] in ("alloca", "g", "fn") and b2[0] in ("alloca", "g", "fn"):
                        c = 0
                    else:
                        k = sorted([(b1, o1), (b2, o2)], key=repr)
                        c = b.atom(("peq", k[0], k[1]))
                    if pred == "ne":
                        c = b.NOT(c)
                else:
                    c = b.atom(("pcmp", pred, (b1, o1), (b2, o2)))
                r = b.OR(r, b.AND(g, c))
        return r

    # ---- arithmetic
    def lin(self, w):
        """linear normal form (const, {term bits: coef})"""
        n = len(w)
        if self.is_const(w):
            return self.cval(w), {}
        t = self.terms.get(w)
        if isinstance(t, tuple) and t[0] == "lin" and t[1] == n:
            return t[2], dict(t[3])
        # a shifted word: zeros below
        z = 0
        while z < n and w[z] == 0:
            z += 1
        return 0, {w: 1}

    def from_lin(self, c, ts, n):
        M = (1 << n) - 1
        c &= M
        ts = {k: v & M for k, v in ts.items() if v & M}
        if not ts:
            return self.const(c, n)
        if c == 0 and len(ts) == 1:
            (k, v), = ts.items()
            if v == 1:
                return k
            if v & (v - 1) == 0:
                s = v.bit_length() - 1
                return (0,) * s + k[:n - s]
        return self.opaque(("lin", n, c, tuple(sorted(ts.items()))), n)

    def add(self, x, y, sub=False):
        b = self.b
        n = len(x)
        if self.is_const(x) and self.is_const(y):
            return self.const(self.cval(x) + (-self.cval(y) if sub else self.cval(y)), n)
        if not sub:
            if all(b.AND(p, q) == 0 for p, q in zip(x, y)):
                return tuple(b.OR(p, q) for p, q in zip(x, y))
        isl = any(isinstance(self.terms.get(w), tuple) and self.terms[w][0] == "lin" for w in (x, y))
        if not isl and len(self.sup(x, y)) <= self.MAXSUP:
            out = []
            if sub:
                y = tuple(b.NOT(q) for q in y)
            c = 1 if sub else 0
            for p, q in zip(x, y):
                pq = b.XOR(p, q)
                out.append(b.XOR(pq, c))
                c = b.OR(b.AND(p, q), b.AND(c, pq))
            return tuple(out)
        cx, tx = self.lin(x)
        cy, ty = self.lin(y)
        s = -1 if sub else 1
        for k, v in ty.items():
            tx[k] = tx.get(k, 0) + s * v
        return self.from_lin(cx + s * cy, tx, n)

    def mul(self, x, y):
        n = len(x)
        if self.is_const(x):
            x, y = y, x
        if self.is_const(y):
            c = self.cval(y)
            if self.is_const(x):
                return self.const(self.cval(x) * c, n)
            if c == 0:
                return self.const(0, n)
            if c & (c - 1) == 0:
                s = c.bit_length() - 1
                return ((0,) * s + x)[:n]
            if len(self.sup(x)) <= 14:
                acc = self.const(0, n)
                for i in range(n):
                    if (c >> i) & 1:
                        acc = self.add(acc, ((0,) * i + x)[:n])
                return acc
            cx, tx = self.lin(x)
            return self.from_lin(cx * c, {k: v * c for k, v in tx.items()}, n)
        # product of factors, commutative and associative
        fs = []
        for w in (x, y):
            t = self.terms.get(w)
            if isinstance(t, tuple) and t[0] == "mul":
                fs += list(t[2])
            else:
                fs.append(w)
        return self.opaque(("mul", n, tuple(sorted(fs))), n)

    split = False                  # products and quotients with few possible operands case by case

    def cases(self, op, x, y):
        if self.is_const(y):
            c = self.cval(y)
            if op == "mul" or c == 0 or c & (c - 1) == 0 or len(self.sup(x)) > 24:
                return None
            n, b = len(x), self.b
            q, r = [0] * n, (0,) * (n + 1)
            k = self.const(c, n + 1)
            for i in reversed(range(n)):
                r = (x[i],) + r[:n]
                q[i] = b.NOT(self.ult(r, k))
                r = self.w_ite(q[i], self.add(r, k, True), r)
            return tuple(q) if op == "udiv" else r[:n]
        vs = self.values(y, 1, 16)
        if vs is None and op == "mul":
            x, y = y, x
            vs = self.values(y, 1, 16)
        if vs is None:
            return None
        r = None
        for v, g in vs:
            v &= (1 << len(y)) - 1
            t = self.binop(op, x, self.const(v, len(y))) if v or op == "mul" else self.opaque((op, len(x), x, y), len(x))
            r = t if r is None else self.w_ite(g, t, r)
        return r

    def binop(self, op, x, y):
        b = self.b
        n = len(x)
        if self.split and op in ("mul", "udiv", "urem"):
            r = self.cases(op, x, y)
            if r is not None:
                return r
        if op == "and":
            return tuple(b.AND(p, q) for p, q in zip(x, y))
        if op == "or":
            return tuple(b.OR(p, q) for p, q in zip(x, y))
        if op == "xor":
            return tuple(b.XOR(p, q) for p, q in zip(x, y))
        if op == "add":
            return self.add(x, y)
        if op == "sub":
            return self.add(x, y, sub=True)
        if op == "mul":
            return self.mul(x, y)
        if op in ("shl", "lshr", "ashr"):
            if self.is_const(y):
                return self.shift(op, x, self.cval(y))
            lo = y[:7]
            if len(self.sup(y)) <= 8 and len(self.sup(x)) <= 40:
                r = x
                for i in range(len(y)):
                    if y[i] == 0:
                        continue
                    if i < 8:
                        r = self.w_ite(y[i], self.shift(op, r, 1 << i), r)
                return r
            return self.opaque((op, n, x, y), n)
        if op in ("udiv", "urem") and self.is_const(y):
            c = self.cval(y)
            if c and c & (c - 1) == 0:
                s = c.bit_length() - 1
                if op == "udiv":
                    return self.shift("lshr", x, s)
                return x[:s] + (0,) * (n - s)
            if self.is_const(x) and c:
                return self.const(self.cval(x) // c if op == "udiv" else self.cval(x) % c, n)
        return self.opaque((op, n, x, y), n)

    def shift(self, op, x, s):
        n = len(x)
        if op == "shl":
            return ((0,) * s + x)[:n]
        f = 0 if op == "lshr" else x[-1]
        return (x[s:] + (f,) * min(s, n))[:n] if s < n else (f,) * n

    # ---- constants
    def cvalue(self, c):
        if isinstance(c, Function):
            return Ptr([(1, ("fn", c.name), 0)])
        if isinstance(c, Global):
            return Ptr([(1, ("g", c.name), 0)])
        if c.kind == "int":
            return self.const(c.val, c.ty.bits)
        if c.kind == "null":
            return Ptr([(1, NULL, 0)])
        if c.kind == "undef":
            return self.zero(c.ty, undef=True)
        if c.kind == "zero":
            return self.zero(c.ty)
        if c.kind == "cexpr":
            if c.op == "gep":
                p = self.cvalue(c.ops[0])
                return Ptr((g, ba, o + c.off) for g, ba, o in p.alts)
            if c.op in ("bitcast", "addrspacecast"):
                return self.cvalue(c.ops[0])
            if c.op == "ptrtoint":
                return self.opaque(("p2i", self.cvalue(c.ops[0]).key()), c.ty.bits)
        if c.kind in ("struct", "array"):
            return Agg(self.cvalue(x) for x in c.ops)
        if c.kind == "bytes":
            return Agg(self.const(x, 8) for x in c.val)
        if c.ty and c.ty.kind == "int":
            return self.opaque(("const", id(c)), c.ty.bits)
        return Ptr([(1, ("const", id(c)), 0)])

    def zero(self, ty, undef=False):
        if ty.kind == "int":
            return self.const(0, ty.bits)
        if ty.kind == "ptr":
            return Ptr([(1, NULL, 0)])
        if ty.kind == "struct":
            return Agg(self.zero(t) for t in ty.elems)
        if ty.kind in ("array", "vector"):
            return Agg(self.zero(ty.elems[0]) for _ in range(ty.n))
        return self.const(0, 64)

    def sym(self, ty, key):
        if ty.kind == "int":
            return self.opaque(key, ty.bits)
        if ty.kind == "ptr":
            return Ptr([(1, ("v", key), 0)])
        if ty.kind == "struct":
            return Agg(self.sym(t, (key, i)) for i, t in enumerate(ty.elems))
        if ty.kind in ("array", "vector"):
            return Agg(self.sym(ty.elems[0], (key, i)) for i in range(ty.n))
        return self.opaque(key, max(8, ty.size * 8))

    # ---- memory
    def init_const(self, name):
        """bytes (and pointers) of a constant global's initialiser -> (dict off->byte, dict off->Ptr)"""
        g = self.m.globals.get(name)
        if g is None or g.init is None or not g.const:
            return None
        return self._flat(g)

    _flats = None

    def _flat(self, g):
        if self._flats is None:
            self._flats = {}
        r = self._flats.get(g.name)
        if r is None:
            by, pt = {}, {}
            self._flatten(g.init, g.valty, 0, by, pt)
            r = self._flats[g.name] = (by, pt)
        return r

    def _flatten(self, c, ty, off, by, pt):
        if c.kind in ("zero", "undef", "null"):
            for i in range(ty.size):
                by[off + i] = (0,) * 8
            return
        if c.kind == "int":
            v = c.val
            for i in range(ty.size):
                by[off + i] = self.const((v >> (8 * i)) & 255, 8)
        elif c.kind == "bytes":
            for i, x in enumerate(c.val):
                by[off + i] = self.const(x, 8)
        elif c.kind == "array":
            for i, x in enumerate(c.ops):
                self._flatten(x, ty.elems[0], off + i * ty.elems[0].size, by, pt)
        elif c.kind == "struct":
            for x, t, o in zip(c.ops, c.ty.elems, c.ty.offs):
                self._flatten(x, t, off + o, by, pt)
        elif c.ty.kind == "ptr":
            pt[off] = self.cvalue(c)

    def byte(self, base, off):
        m = self.mem.get(base)
        if m is not None:
            v = m.get(off)
            if v is not None:
                return v
        if base[0] == "g":
            ic = self.init_const(base[1])
            if ic is not None and off in ic[0]:
                return ic[0][off]
        return self.initbyte(base, off)

    def initbyte(self, base, off):
        e = self.ver.get(base, 0)
        key = ("mem", base, off) if not e else ("mem", base, off, "v%d" % e)
        return self.opaque(key, 8)

    def load(self, p, ty, inst=None):
        if not p.alts:
            return self.zero(ty)
        if ty.kind in ("struct", "array"):
            # first-class aggregate load
            if ty.kind == "struct":
                return Agg(self.load(self.padd(p, o), t, inst) for t, o in zip(ty.elems, ty.offs))
            return Agg(self.load(self.padd(p, i * ty.elems[0].size), ty.elems[0], inst) for i in range(ty.n))
        r = None
        for g, base, off in p.alts:
            v = self.load1(base, off, ty, inst)
            r = v if r is None else self.w_ite(g, v, r)
        return r

    def padd(self, p, o):
        return Ptr((g, ba, of + o) for g, ba, of in p.alts)

    def load1(self, base, off, ty, inst):
        if self.load_hook:
            r = self.load_hook(self, base, off, ty, inst)
            if r is not None:
                return r
        if base == NULL:
            return self.zero(ty)
        if base[0] == "elt":
            return self.load_elt(base, off, ty, inst)
        if ty.kind == "ptr":
            p = self.pmem.get(base, {}).get(off)
            if p is not None:
                return p
            if base[0] == "g":
                ic = self.init_const(base[1])
                if ic is not None:
                    if off in ic[1]:
                        return ic[1][off]
                    if all(ic[0].get(off + i) == (0,) * 8 for i in range(ty.size)):
                        return Ptr([(1, NULL, 0)])
            m = self.mem.get(base, {})
            if all(m.get(off + i) == (0,) * 8 for i in range(ty.size)):
                return Ptr([(1, NULL, 0)])
            e = self.ver.get(base, 0)
            return Ptr([(1, ("ld", base, off) if not e else ("ld", base, off, e), 0)])
        n = ty.bits or ty.size * 8
        out = ()
        for i in range((n + 7) // 8):
            out += self.byte(base, off + i)
        return out[:n]

    def load_elt(self, base, off, ty, inst):
        _, inner, ioff, stride, idx = base
        if inner[0] == "g":
            g = self.m.globals.get(inner[1])
            if g is not None and g.const and g.init is not None and len(self.sup(idx)) <= 12:
                cnt = g.valty.size // stride if stride else 0
                if 0 < cnt <= 1024:
                    r = None
                    for k in range(cnt):
                        o = ioff + k * stride + off
                        if o < 0 or o >= g.valty.size:
                            continue
                        v = self.load1(inner, o, ty, inst)
                        if r is None:
                            r = v
                        else:
                            r = self.w_ite(self.eq(idx, self.const(k, len(idx))), v, r)
                    if r is not None:
                        return r
        root = base
        while root[0] == "elt":
            root = root[1]
        v = self.ver.get(("w", root), 0)
        key = ("elt", base, off, v) if v else ("elt", base, off)
        m = self.mem.get(base)
        if m is not None and ty.kind != "ptr":
            n = ty.bits or ty.size * 8
            if all((off + i) in m for i in range((n + 7) // 8)):
                out = ()
                for i in range((n + 7) // 8):
                    out += m[off + i]
                return out[:n]
        if ty.kind == "ptr":
            pm = self.pmem.get(base, {}).get(off)
            if pm is not None:
                return pm
            return Ptr([(1, ("ld",) + key, 0)])
        return self.opaque(key, ty.bits or ty.size * 8)

    def havoc_base(self, base):
        self.mem.pop(base, None)
        self.pmem.pop(base, None)
        self.ver[base] = self.ver.get(base, 0) + 1
        for bb in list(self.mem):
            if bb[0] == "elt" and self.root(bb) == base:
                self.mem.pop(bb)
        for bb in list(self.pmem):
            if bb[0] == "elt" and self.root(bb) == base:
                self.pmem.pop(bb)

    def root(self, base):
        while base[0] == "elt":
            base = base[1]
        return base

    def store(self, p, v, guard, size, inst=None):
        for g, base, off in p.alts:
            c = self.b.AND(guard, g)
            if not c:
                continue
            self.store1(base, off, v, c, size)

    def store1(self, base, off, v, c, size):
        b = self.b
        if base == NULL:
            return
        root = self.root(base)
        self.ver[("w", root)] = self.ver.get(("w", root), 0) + 1
        if base[0] == "elt":
            # writes through a variable index: forget everything known of the array except this very cell
            keep_m, keep_p = self.mem.get(base), self.pmem.get(base)
            self.havoc_base(root)
            if keep_m is not None:
                self.mem[base] = keep_m
            if keep_p is not None:
                self.pmem[base] = keep_p
        else:
            for bb in [x for x in list(self.mem) if x[0] == "elt" and self.root(x) == base]:
                self.mem.pop(bb)
            for bb in [x for x in list(self.pmem) if x[0] == "elt" and self.root(x) == base]:
                self.pmem.pop(bb)
        if isinstance(v, Agg):
            raise TypeError("aggregate store")
        if isinstance(v, Ptr):
            pm = self.pmem.setdefault(base, {})
            if c == 1:
                pm[off] = v
            else:
                old = self.load1(base, off, _PT(size), None)
                pm[off] = self.w_ite(c, v, old)
            m = self.mem.get(base)
            if m:
                for i in range(size):
                    m.pop(off + i, None)
            return
        m = self.mem.setdefault(base, {})
        n = len(v)
        v = v + (0,) * (-n % 8)
        for i in range(len(v) // 8):
            nb = v[8 * i:8 * i + 8]
            # the first write to a stack slot leaves no earlier value to merge with
            if c != 1 and not (base[0] == "alloca" and off + i not in m and not self.ver.get(base)):
                ob = self.byte(base, off + i)
                nb = tuple(b.ite(c, x, y) for x, y in zip(nb, ob))
            m[off + i] = nb
        pm = self.pmem.get(base)
        if pm:
            for o in list(pm):
                if o < off + len(v) // 8 and off < o + 8 and o >= off:
                    if c == 1:
                        pm.pop(o)
                    else:
                        zero = all(x == 0 for x in v)
                        if zero:
                            pm[o] = self.w_ite(c, Ptr([(1, NULL, 0)]), pm[o])
                        else:
                            pm.pop(o)

    def memcpy(self, d, s, n, guard):
        for g1, b1, o1 in d.alts:
            for g2, b2, o2 in s.alts:
                c = self.b.AND(guard, self.b.AND(g1, g2))
                if not c:
                    continue
                if b2[0] == "elt" or b1[0] == "elt":
                    ps = self.m.ptrsize
                    # field granularity unknown: copy as opaque words
                    for i in range(n):
                        by = self.load1(b2, o2 + i, _IT(8), None) if b2[0] == "elt" else self.byte(b2, o2 + i)
                        self.store1(b1, o1 + i, by, c, 1)
                    continue
                snap = [self.byte(b2, o2 + i) for i in range(n)]
                pm = self.pmem.get(b2, {})
                ps = {o: p for o, p in pm.items() if o2 <= o < o2 + n}
                if b2[0] == "g":
                    ic = self.init_const(b2[1])
                    if ic:
                        ps.update({o: p for o, p in ic[1].items() if o2 <= o < o2 + n})
                for i in range(n):
                    self.store1(b1, o1 + i, snap[i], c, 1)
                # uninitialised pointer fields keep their source identity on demand
                for o, p in ps.items():
                    self.store1(b1, o1 + (o - o2), p, c, self.m.ptrsize)

    def memset(self, d, val, n, guard):
        for i in range(n):
            self.store(self.padd(d, i), val, guard, 1)

    # ---- functions
    def run(self, fn, args=None, guard=1):
        """-> (return value or None, guard of normal return)"""
        if args is None:
            args = []
            for a in fn.args:
                if a.ty.kind == "ptr":
                    args.append(Ptr([(1, ("argp", fn.name, a.index), 0)]))
                else:
                    args.append(self.sym(a.ty, ("arg", fn.name, a.index)))
        env = {}
        for a, v in zip(fn.args, args):
            env[id(a)] = v
        self.env = env
        order, back, loops = self.order(fn)
        reach = {fn.entry: guard}
        edge = {}
        rets = []
        b = self.b
        # exits of each outermost-first loop: leaving a loop is certain once it was entered (termination is assumed),
        # so the last exit in order takes whatever the other exits did not
        exits = {}
        pos = {bb: k for k, bb in enumerate(order)}
        for h, body in loops.items():
            ex = [(x, s) for x in body for s in set(x.succs) if s not in body and not self.is_abort(s)]
            ex.sort(key=lambda e: (pos[e[0]], pos[e[1]]))
            for e in ex:
                exits.setdefault(e, []).append(h)
            loops[h] = body
            self.loop_exits = getattr(self, "loop_exits", {})
            self.loop_exits[h] = ex

        def fix_exit(x, s):
            for h in exits.get((x, s), ()):
                ex = self.loop_exits[h]
                if ex[-1] == (x, s):
                    g = reach[h]
                    for e in ex[:-1]:
                        g = b.AND(g, b.NOT(edge.get(e, 0)))
                    edge[(x, s)] = g

        def get(v):
            if isinstance(v, (Inst, Arg)):
                return env[id(v)]
            return self.cvalue(v)

        self.get = get
        for bb in order:
            if bb is not fn.entry:
                r = 0
                for p in bb.preds:
                    if (p, bb) in back:
                        continue
                    r = b.OR(r, edge.get((p, bb), 0))
                reach[bb] = r
            c = reach[bb]
            self.cur = c
            if bb in loops and c:
                self.havoc_loop(loops[bb], env, get)
            # phis in parallel
            newphi = {}
            for i in bb.insts:
                if i.op != "phi":
                    break
                if bb in loops:
                    newphi[id(i)] = self.loop_phi(i, back, get, edge)
                else:
                    v = None
                    for x, p in i.inc:
                        g = edge.get((p, bb), 0)
                        if not g:
                            continue
                        xv = get(x)
                        v = xv if v is None else self.w_ite(g, xv, v)
                    newphi[id(i)] = v if v is not None else self.zero(i.ty)
            env.update(newphi)
            dead = not c
            for i in bb.insts:
                if i.op == "phi":
                    continue
                if dead and i.op not in ("br", "switch", "ret"):
                    env[id(i)] = self.zero(i.ty) if i.ty.kind != "void" else None
                    continue
                if i.op == "br":
                    if i.ops:
                        x = get(i.ops[0])[0] if not dead else 0
                        t, e = i.succs
                        edge[(bb, t)] = b.OR(edge.get((bb, t), 0) if t is e else 0, b.AND(c, x))
                        if t is e:
                            edge[(bb, t)] = c
                        else:
                            edge[(bb, e)] = b.AND(c, b.NOT(x))
                            fix_exit(bb, e)
                        fix_exit(bb, t)
                    else:
                        edge[(bb, i.succs[0])] = c
                        fix_exit(bb, i.succs[0])
                elif i.op == "switch":
                    x = get(i.ops[0]) if not dead else None
                    rest = c
                    acc = {}
                    if not dead:
                        for val, s in i.cases:
                            e = self.eq(x, self.const(val, len(x)))
                            g = b.AND(c, e)
                            acc[s] = b.OR(acc.get(s, 0), g)
                            rest = b.AND(rest, b.NOT(e))
                        d = i.succs[0]
                        acc[d] = b.OR(acc.get(d, 0), rest)
                    for s, g in acc.items():
                        edge[(bb, s)] = g
                        fix_exit(bb, s)
                elif i.op == "ret":
                    if c:
                        rets.append((c, get(i.ops[0]) if i.ops else None))
                elif i.op == "unreachable":
                    pass
                else:
                    v = self.step(i, c, get)
                    if v == "noreturn":
                        dead = True
                        c = 0
                        env[id(i)] = self.zero(i.ty) if i.ty.kind != "void" else None
                    elif v is not None:
                        env[id(i)] = v
        self.reach = reach
        self.edge = edge
        if not rets:
            return None, 0
        g, v = rets[0]
        for g2, v2 in rets[1:]:
            if v is not None:
                v = self.w_ite(g2, v2, v)
            g = b.OR(g, g2)
        return v, g

    def is_abort(self, bb):
        n = 0
        while n < 4:
            t = bb.term
            if t.op == "unreachable":
                return True
            if t.op != "br" or t.ops:
                return False
            bb = t.succs[0]
            n += 1
        return False

    def order(self, fn):
        """reverse post order, back edges, loop headers -> set of loop blocks"""
        seen, out, state, back = set(), [], {}, set()
        st = [(fn.entry, iter(fn.entry.succs))]
        state[fn.entry] = 1
        while st:
            bb, it = st[-1]
            for s in it:
                if state.get(s) is None:
                    state[s] = 1
                    st.append((s, iter(s.succs)))
                    break
                if state[s] == 1:
                    back.add((bb, s))
            else:
                state[bb] = 2
                out.append(bb)
                st.pop()
        out.reverse()
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w += x.preds
        return out, back, loops

    def loop_phi(self, i, back, get, edge):
        return self.sym(i.ty, ("loop", i.bb.fn.name, i.uid))

    def havoc_loop(self, body, env, get):
        for bb in body:
            for i in bb.insts:
                tgt = None
                n = 0
                if i.op == "store":
                    tgt, n = i.ops[1], i.size
                elif i.op == "call" and isinstance(i.callee, Function) and i.callee.name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    tgt = i.args[0]
                    n = i.args[2].val if isinstance(i.args[2], Const) and i.args[2].kind == "int" else None
                elif i.op == "call" and isinstance(i.callee, Function) and i.callee.name.startswith(("llvm.", "cpuinfo_log", "free")):
                    continue
                elif i.op == "call":
                    for a in i.args:
                        if a.ty is not None and a.ty.kind == "ptr":
                            self._havoc_target(a, None, env, body)
                    continue
                if tgt is not None:
                    self._havoc_target(tgt, n, env, body)

    def _havoc_target(self, v, n, env, body):
        off = 0
        exact = n is not None
        seen = set()
        work = [(v, 0, exact)]
        while work:
            v, off, ex = work.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Inst) and id(v) not in env or (isinstance(v, Inst) and v.bb in body):
                if v.op == "gep":
                    work.append((v.ops[0], off + v.off, ex and not v.idx))
                elif v.op == "phi":
                    for x in v.ops:
                        work.append((x, off, False))
                elif v.op == "select":
                    work.append((v.ops[1], off, ex))
                    work.append((v.ops[2], off, ex))
                elif v.op == "alloca":
                    pass
                else:
                    # address loaded from memory or returned inside the loop: opaque base, not tracked
                    pass
                continue
            try:
                p = self.get(v)
            except KeyError:
                continue
            if not isinstance(p, Ptr):
                continue
            for g, base, o in p.alts:
                if base == NULL or base[0] == "fn":
                    continue
                root = self.root(base)
                if ex and base[0] != "elt":
                    m = self.mem.setdefault(base, {})
                    pm = self.pmem.setdefault(base, {})
                    self.hc = getattr(self, "hc", 0) + 1
                    for k in range(n):
                        m[o + off + k] = self.opaque(("havoc", base, o + off + k, self.hc), 8)
                        if o + off + k in pm:
                            pm[o + off + k] = Ptr([(1, ("havoc", base, o + off + k, self.hc), 0)])
                else:
                    self.havoc_base(root)

    # ---- one instruction
    def step(self, i, c, get):
        op = i.op
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
            return self.binop(op, get(i.ops[0]), get(i.ops[1]))
        if op == "icmp":
            return (self.icmp(i.pred, get(i.ops[0]), get(i.ops[1])),)
        if op == "zext":
            x = get(i.ops[0])
            return x + (0,) * (i.ty.bits - len(x))
        if op == "sext":
            x = get(i.ops[0])
            return x + (x[-1],) * (i.ty.bits - len(x))
        if op == "trunc":
            return get(i.ops[0])[:i.ty.bits]
        if op in ("freeze", "bitcast"):
            v = get(i.ops[0])
            return v
        if op == "select":
            return self.w_ite(get(i.ops[0])[0], get(i.ops[1]), get(i.ops[2]))
        if op == "alloca":
            return Ptr([(1, ("alloca", i.uid), 0)])
        if op == "gep":
            p = get(i.ops[0])
            var = []
            off = i.off
            for x, stride in i.idx:
                w = get(x)
                if self.is_const(w):
                    k = self.cval(w)
                    if w[-1] == 1:
                        k -= 1 << len(w)
                    off += k * stride
                else:
                    vs = self.values(w, c) if self.tables(p) else None
                    if vs is None:
                        var.append((w, stride))
                    else:
                        p = Ptr((self.b.AND(g, h), ba, o + k * stride) for g, ba, o in p.alts for k, h in vs
                                if self.b.AND(g, h))
            if not var:
                return Ptr((g, ba, o + off) for g, ba, o in p.alts)
            alts = []
            for g, ba, o in p.alts:
                cur, co = ba, o + off
                for w, s in var:
                    cur = ("elt", cur, co, s, w)
                    co = 0
                alts.append((g, cur, co))
            return Ptr(alts)
        if op == "load":
            p = get(i.ops[0])
            if isinstance(p, Ptr):
                return self.load(p, i.ty, i)
            return self.sym(i.ty, ("load", i.uid))
        if op == "store":
            v = get(i.ops[0])
            if self.log_stores:
                self.stores.append((i, c, get(i.ops[1]), v))
            if isinstance(v, Agg):
                self.store_agg(get(i.ops[1]), v, i.ops[0].ty, c)
            else:
                self.store(get(i.ops[1]), v, c, i.size, i)
            return None
        if op == "extractvalue":
            v = get(i.ops[0])
            for k in i.indices:
                v = v.elems[k]
            return v
        if op == "insertvalue":
            v = get(i.ops[0])
            x = get(i.ops[1])

            def ins(a, idx):
                if not idx:
                    return x
                e = list(a.elems)
                e[idx[0]] = ins(e[idx[0]], idx[1:])
                return Agg(e)
            return ins(v, i.indices)
        if op == "ptrtoint":
            return self.opaque(("p2i", get(i.ops[0]).key()), i.ty.bits)
        if op == "inttoptr":
            w = get(i.ops[0])
            t = self.terms.get(w)
            return Ptr([(1, ("i2p", w), 0)])
        if op == "fence":
            return None
        if op == "call":
            return self.call(i, c, get)
        if i.ty.kind == "void":
            return None
        if op in ("cmpxchg", "atomicrmw"):
            p = get(i.ops[0])
            for g, base, off in p.alts:
                self.havoc_base(self.root(base))
        return self.sym(i.ty, (op, i.bb.fn.name, i.uid))

    def store_agg(self, p, v, ty, c):
        if ty.kind == "struct":
            for e, t, o in zip(v.elems, ty.elems, ty.offs):
                if isinstance(e, Agg):
                    self.store_agg(self.padd(p, o), e, t, c)
                else:
                    self.store(self.padd(p, o), e, c, t.size)
        else:
            t = ty.elems[0]
            for k, e in enumerate(v.elems):
                q = self.padd(p, k * t.size)
                if isinstance(e, Agg):
                    self.store_agg(q, e, t, c)
                else:
                    self.store(q, e, c, t.size)

    NOCLOBBER = ("cpuinfo_log", "cpuinfo_vlog", "llvm.", "strlen", "memcmp", "strcmp", "strncmp", "free", "getauxval",
                 "prctl", "syscall", "abort", "calloc", "malloc", "memchr", "strnlen", "close", "open", "dlopen",
                 "dlsym", "dlerror", "dlclose", "__errno_location", "strerror", "getenv")

    def call(self, i, c, get):
        f = i.callee
        args = [get(a) if not (isinstance(a, Const) and a.kind == "meta") else None for a in i.args]
        nm = f.name if isinstance(f, Function) else None
        if nm in self.record or (nm is None and "indirect" in self.record):
            e = Event()
            e.inst, e.guard, e.args, e.fn = i, c, args, nm
            self.events.append(e)
        if self.call_hook:
            r = self.call_hook(self, i, nm, args, c)
            if r is not None:
                return None if r == "void" else r
        if nm:
            if nm.startswith("llvm."):
                if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.va_", "llvm.stack")):
                    return None if i.ty.kind == "void" else self.sym(i.ty, ("intr", i.uid))
                if nm.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                    n = args[2]
                    if self.is_const(n) and self.cval(n) <= 65536:
                        if nm.startswith("llvm.memset"):
                            self.memset(args[0], args[1], self.cval(n), c)
                        else:
                            self.memcpy(args[0], args[1], self.cval(n), c)
                    else:
                        for g, base, off in args[0].alts:
                            self.havoc_base(self.root(base))
                    return None
                if nm.startswith("llvm.expect"):
                    return args[0]
                if nm.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
                    lt = self.ult(args[0], args[1]) if nm[5] == "u" else self.slt(args[0], args[1])
                    x, y = (args[0], args[1]) if "min" in nm else (args[1], args[0])
                    return self.w_ite(lt, x, y)
                if nm.startswith("llvm.ctlz") or nm.startswith("llvm.cttz"):
                    w = args[0] if nm.startswith("llvm.ctlz") else tuple(reversed(args[0]))
                    r = self.const(len(w), len(w))
                    for k, x in enumerate(w):
                        r = self.w_ite(x, self.const(len(w) - 1 - k, len(w)), r)
                    return r
                if nm.startswith(("llvm.fshl", "llvm.fshr")) and self.is_const(args[2]):
                    n = len(args[0])
                    k = self.cval(args[2]) % n
                    both = args[1] + args[0]
                    return both[n - k:2 * n - k] if nm.startswith("llvm.fshl") else both[k:k + n]
                if nm.startswith(("llvm.usub.sat", "llvm.uadd.sat")):
                    r = self.add(args[0], args[1], sub=nm.startswith("llvm.usub"))
                    if nm.startswith("llvm.usub"):
                        return self.w_ite(self.ult(args[0], args[1]), self.const(0, len(r)), r)
                    return self.w_ite(self.ult(r, args[0]), self.const(-1, len(r)), r)
                if nm.startswith("llvm.abs"):
                    return self.w_ite(args[0][-1], self.add(self.const(0, len(args[0])), args[0], sub=True), args[0])
                if nm.startswith("llvm.ctpop") and len(self.sup(args[0])) <= 40:
                    n = len(args[0])
                    r = self.const(0, n)
                    for x in args[0]:
                        r = self.add(r, (x,) + (0,) * (n - 1))
                    return r
                if nm.startswith("llvm.bswap"):
                    w = args[0]
                    by = [w[k:k + 8] for k in range(0, len(w), 8)]
                    return tuple(x for bt in reversed(by) for x in bt)
                if i.ty.kind == "void":
                    return None
                ks = tuple(a.key() if isinstance(a, (Ptr, Agg)) else a for a in args)
                return self.sym(i.ty, (nm, ks))
            if nm in ("memcmp", "bcmp") and self.is_const(args[2]) and self.cval(args[2]) <= 256:
                n = self.cval(args[2])
                e = 1
                for k in range(n):
                    x = self.load(self.padd(args[0], k), _IT(8))
                    y = self.load(self.padd(args[1], k), _IT(8))
                    e = self.b.AND(e, self.eq(x, y))
                ne = self.b.NOT(e)
                return (ne,) + tuple(self.b.AND(ne, self.b.atom(("cmpres", i.uid, k))) for k in range(1, i.ty.bits))
            if not f.decl and not (i.noreturn) and self.depth < 24 and not f.vararg and self.inline_ok(f):
                return self.inline(i, f, args, c)
        if i.noreturn:
            return "noreturn"
        # effects of an unknown callee: it may write through its pointer arguments
        if not (nm and nm.startswith(self.NOCLOBBER)):
            for a in args:
                if isinstance(a, Ptr):
                    for g, base, off in a.alts:
                        root = self.root(base)
                        if root[0] == "g" and self.m.globals.get(root[1]) is not None and self.m.globals[root[1]].const:
                            continue
                        if base != NULL and base[0] != "fn":
                            self.havoc_base(root)
        if i.ty.kind == "void":
            return None
        if nm in self.PURE:
            ks = tuple(a.key() if isinstance(a, (Ptr, Agg)) else a for a in args)
            return self.sym(i.ty, ("call", nm, ks))
        return self.sym(i.ty, ("call", nm or "indirect", i.uid, self.depth))

    PURE = {"getauxval", "prctl", "strlen", "strcmp"}

    def inline_ok(self, f):
        return True

    def inline(self, i, f, args, c):
        saved = (self.env, self.get, self.cur)
        self.depth += 1
        # guard inside the callee is the call's guard, so that its stores are guarded correctly
        v, g = self.run(f, args, guard=c)
        self.depth -= 1
        self.env, self.get, self.cur = saved
        if g == 0:
            return "noreturn"
        return v


class _PT:
    kind = "ptr"
    elems = None

    def __init__(self, size):
        self.size, self.bits = size, size * 8


class _IT:
    kind = "int"
    elems = None

    def __init__(self, bits):
        self.size, self.bits = bits // 8, bits
