"""Value flow through loops over short texts.

The domain is that of vflow (Boolean functions of the input bytes, merged at every control-flow join).  A loop is
analysed iteration by iteration until the Boolean function of its back edge is constantly false, which happens for loops
over a text of known length; iterations merge at the loop exits.  The text is a file of known length whose bytes are
inputs; the library's own reading loop is part of what is analysed.
"""
import signal

from . import build
from .bdd import Budget
from .ir import Function
from .vflow import NULL, Event, Ptr, VFlow, _IT


SECONDS = 30                        # per text


class Truncated(Exception):
    pass


def module(cfg, roots, noinline=()):
    p = build.inlined(cfg, roots, noinline=noinline, post="function(sroa,simplifycfg,loop-simplify,lcssa)")
    return build.load(p, cfg)


class StrFlow(VFlow):
    MAXSUP = 200
    MAXITER = 4000
    SINKS = ("cpuinfo_log", "cpuinfo_vlog", "__errno_location", "strerror")

    def __init__(self, m, **kw):
        super().__init__(m, **kw)
        self.ctx = 0
        self.allocas = {}
        self.reads = []                 # (guard, base, off, inst): every load from tracked buffers
        self.plans = {}                 # fn -> (order, loops, parent)
        self.stray = []                 # loads of bytes that were never written
        self.track = None               # function deciding which bases are texts

    # one atom per execution of an instruction
    def sym(self, ty, key):
        return super().sym(ty, (key, self.ctx))

    def load1(self, base, off, ty, inst):
        if inst is not None and self.track is not None and self.track(base):
            for k in range(ty.size):
                if off + k not in self.mem.get(base, ()):
                    self.stray.append((base, off + k, inst))
        return super().load1(base, off, ty, inst)

    def load(self, p, ty, inst=None):
        # alternatives that the current guard excludes are not read
        if isinstance(p, Ptr) and inst is not None and len(p.alts) > 1:
            q = [(g, ba, o) for g, ba, o in p.alts if self.b.AND(g, self.cur)]
            if q:
                p = Ptr(q)
        if isinstance(p, Ptr) and inst is not None and self.track is not None:
            for g, ba, o in p.alts:
                if self.track(ba):
                    g = self.b.AND(g, self.cur)
                    if g:
                        self.reads.append((g, ba, o, ty.size, inst))
        return super().load(p, ty, inst)

    def plan(self, fn):
        r = self.plans.get(fn)
        if r is None:
            order, back, loops = self.order(fn)
            r = self.plans[fn] = (order, loops)
        return r

    def run(self, fn, args=None, guard=1):
        if args is None:
            args = []
            for a in fn.args:
                if a.ty.kind == "ptr":
                    args.append(Ptr([(1, ("argp", fn.name, a.index), 0)]))
                else:
                    args.append(self.sym(a.ty, ("arg", fn.name, a.index)))
        st = _Run(self, fn)
        for a, v in zip(fn.args, args):
            st.env[id(a)] = v
        self.env, self.get = st.env, st.get
        st.region([bb for bb in st.order], None, guard)
        if not st.rets:
            return None, 0
        g, v = st.rets[0]
        for g2, v2 in st.rets[1:]:
            if v is not None:
                v = self.w_ite(g2, v2, v)
            g = self.b.OR(g, g2)
        return v, g

    def step(self, i, c, get):
        if i.op == "ptrtoint":
            p = get(i.ops[0])
            return self.opaque(("p2i", p), i.ty.bits)
        if i.op == "inttoptr":
            w = get(i.ops[0])
            p = self.as_ptr(w)
            if p is not None:
                return p
        if i.op in ("add", "sub"):
            r = self.parith(i.op, get(i.ops[0]), get(i.ops[1]), c)
            if r is not None:
                return r
        if i.op == "alloca":
            n = get(i.ops[0]) if i.ops else None
            p = super().step(i, c, get)
            if n is None or self.is_const(n):
                self.allocas[p.alts[0][1]] = i.size * (self.cval(n) if n is not None else 1)
            return p
        if i.op == "gep":
            p = get(i.ops[0])
            off, ok = i.off, True
            alts = p.alts
            for x, stride in i.idx:
                w = get(x)
                vs = self.values(w, c, 1024)
                if vs is None:
                    ok = False
                    break
                acc = {}
                for g, ba, o in alts:
                    for k, h in vs:
                        t = self.b.AND(g, h) if len(vs) > 1 else g
                        if t:
                            kk = (ba, o + k * stride)
                            acc[kk] = self.b.OR(acc.get(kk, 0), t)
                alts = [(g, ba, o) for (ba, o), g in acc.items()]
            if ok:
                return Ptr((g, ba, o + off) for g, ba, o in alts)
        return super().step(i, c, get)

    def values(self, w, c, limit=32):
        if self.is_const(w):
            v = self.cval(w)
            return [(v - (1 << len(w)) if w[-1] == 1 else v, c)]
        b = self.b
        cur = [(0, c)]
        for k, x in reversed(list(enumerate(w))):
            nx = []
            for v, g in cur:
                h = b.AND(g, x)
                if h:
                    nx.append((v | 1 << k, h))
                if h != g:
                    nx.append((v, b.AND(g, b.NOT(x))))
            if len(nx) > limit:
                return None
            cur = nx
        n = len(w)
        return [(v - (1 << n) if v >> (n - 1) else v, g) for v, g in cur]

    def mul(self, x, y):
        if self.is_const(x):
            x, y = y, x
        if not self.is_const(y):
            return super().mul(x, y)
        n, c = len(x), self.cval(y)
        acc = self.const(0, n)
        for i in range(n):
            if (c >> i) & 1:
                acc = self.add(acc, ((0,) * i + x)[:n])
        return acc

    def as_ptr(self, w):
        t = self.terms.get(w)
        if isinstance(t, tuple) and t[0] == "p2i":
            return t[1]
        return None

    def parith(self, op, x, y, c):
        if not isinstance(x, tuple) or not isinstance(y, tuple):
            return None
        px, py = self.as_ptr(x), self.as_ptr(y)
        b = self.b
        if op == "sub" and px is not None and py is not None:
            r = None
            for g1, b1, o1 in px.alts:
                for g2, b2, o2 in py.alts:
                    g = b.AND(c, b.AND(g1, g2))
                    if not g:
                        continue
                    if b1 != b2:
                        return None
                    v = self.const(o1 - o2, len(x))
                    r = v if r is None else self.w_ite(g, v, r)
            return r
        if op == "add" and (px is None) != (py is None):
            p, w = (px, y) if px is not None else (py, x)
            vs = self.values(w, c, 64)
            if vs is None:
                return None
            acc = {}
            for g, ba, o in p.alts:
                for k, h in vs:
                    t = b.AND(g, h) if len(vs) > 1 else g
                    if t:
                        acc[(ba, o + k)] = b.OR(acc.get((ba, o + k), 0), t)
            return self.opaque(("p2i", Ptr((g, ba, o) for (ba, o), g in acc.items())), len(x))
        return None

    def call(self, i, c, get):
        f = i.callee
        nm = f.name if isinstance(f, Function) else None
        if nm is None and hasattr(i, "callee") and f is not None:
            # a callback: follow it if it is known
            p = get(f)
            if isinstance(p, Ptr):
                alts = [(g, ba, o) for g, ba, o in p.alts if self.b.AND(g, c)]
                if len(alts) == 1 and alts[0][1][0] == "fn":
                    t = self.m.functions.get(alts[0][1][1])
                    if t is not None and not t.decl:
                        args = [get(a) for a in i.args]
                        return self.inline(i, t, args, c)
        if nm is None and "indirect" in self.record:
            e = Event()
            e.inst, e.guard, e.args, e.fn = i, c, [get(a) for a in i.args], None
            e.result = self.sym(i.ty, ("callback", i.uid)) if i.ty.kind != "void" else None
            self.events.append(e)
            return e.result
        if nm and nm.startswith(("llvm.memcpy", "llvm.memmove")):
            args = [get(a) for a in i.args[:3]]
            if not self.is_const(args[2]):
                return self.copy(args[0], args[1], args[2], c)
        if nm in ("memchr", "__memrchr"):
            return self.memchr(i, [get(a) for a in i.args], c)
        if nm in ("memcmp", "bcmp"):
            args = [get(a) for a in i.args]
            vs = self.values(args[2], c, 64)
            if vs is not None:
                ne = 0
                for n, g in vs:
                    e = 1
                    for k in range(n):
                        self.cur, old = self.b.AND(g, e), self.cur
                        if self.cur:
                            x = self.load(self.padd(args[0], k), _IT(8), i)
                            y = self.load(self.padd(args[1], k), _IT(8), i)
                            e = self.b.AND(e, self.eq(x, y))
                        self.cur = old
                    ne = self.b.OR(ne, self.b.AND(g, self.b.NOT(e)))
                return (ne,) + tuple(self.b.AND(ne, self.b.atom(("cmpres", i.uid, self.ctx, k))) for k in range(1, i.ty.bits))
        return super().call(i, c, get)

    def memchr(self, i, args, c):
        vs = self.values(args[2], c, 64)
        if vs is None:
            return None
        r = Ptr([(1, NULL, 0)])
        ch = args[1][:8]
        for n, g in vs:
            for k in (reversed(range(n))):
                x = self.load(self.padd(args[0], k), _IT(8))
                r = self.w_ite(self.b.AND(g, self.eq(x, ch)), self.padd(args[0], k), r)
        return r

    def copy(self, d, s, n, c):
        vs = self.values(n, c, 64)
        if vs is None:
            for g, base, off in d.alts:
                self.havoc_base(self.root(base))
            return None
        b = self.b
        todo = []
        for k, g in vs:
            for j in range(k):
                for g2, b2, o2 in s.alts:
                    h = b.AND(g, g2)
                    if h:
                        todo.append((j, h, self.byte(b2, o2 + j)))
        for j, h, v in todo:
            for g1, b1, o1 in d.alts:
                t = b.AND(h, g1)
                if t:
                    self.store1(b1, o1 + j, v, t, 1)
        return None


class _Run:
    def __init__(self, vf, fn):
        self.vf, self.fn = vf, fn
        self.env, self.edge, self.rets = {}, {}, []
        self.order, self.loops = vf.plan(fn)

    def get(self, v):
        r = self.env.get(id(v))
        if r is not None:
            return r
        if id(v) in self.env:
            return None
        return self.vf.cvalue(v)

    def region(self, blocks, header, guard):
        done = set()
        for bb in blocks:
            if bb in done:
                continue
            if bb in self.loops and bb is not header:
                body = self.loops[bb]
                done |= body
                self.loop(bb, body, guard if bb is self.fn.entry else None)
            else:
                self.block(bb, guard if bb is self.fn.entry else None)

    def loop(self, h, body, guard):
        vf = self.vf
        b = vf.b
        blocks = [bb for bb in self.order if bb in body]
        entry = {(p, h): self.edge.pop((p, h)) for p in set(h.preds) if p not in body and (p, h) in self.edge}
        out = {}
        n = 0
        while any(g for g, _ in entry.values()):
            n += 1
            if n > vf.MAXITER:
                raise Truncated(f"{self.fn.name}: loop at {next((i.loc() for i in h.insts if i.line), h.name)}")
            for e in [e for e in self.edge if e[0] in body]:
                del self.edge[e]
            self.edge.update(entry)
            self.region(blocks, h, guard)
            entry = {}
            for (x, s), (g, phis) in list(self.edge.items()):
                if x not in body or not g:
                    continue
                if s is h:
                    entry[(x, s)] = (g, phis)
                    del self.edge[(x, s)]
                elif s not in body:
                    if (x, s) in out:
                        g0, p0 = out[(x, s)]
                        out[(x, s)] = (b.OR(g0, g), {k: vf.w_ite(g, v, p0[k]) for k, v in phis.items()})
                    else:
                        out[(x, s)] = (g, phis)
                    del self.edge[(x, s)]
        for e in [e for e in self.edge if e[0] in body]:
            del self.edge[e]
        self.edge.update(out)

    def out(self, bb, s, g):
        if (bb, s) in self.edge:
            g = self.vf.b.OR(self.edge[(bb, s)][0], g)
        phis = {}
        if g:
            for i in s.insts:
                if i.op != "phi":
                    break
                for x, p in i.inc:
                    if p is bb:
                        phis[id(i)] = self.get(x)
                        break
        self.edge[(bb, s)] = (g, phis)

    def block(self, bb, guard):
        vf = self.vf
        b = vf.b
        ins = [self.edge.pop((p, bb)) for p in sorted(set(bb.preds), key=self.order.index) if (p, bb) in self.edge]
        ins = [e for e in ins if e[0]]
        c = guard or 0
        for g, _ in ins:
            c = b.OR(c, g)
        if not c:
            return
        vf.ctx += 1
        vf.cur = c
        new = {}
        for i in bb.insts:
            if i.op != "phi":
                break
            v = None
            for g, phis in ins:
                x = phis[id(i)]
                v = x if v is None else vf.w_ite(g, x, v)
            # what the value is where the block is not reached does not matter: zero there keeps the functions small
            if isinstance(v, tuple) and v not in vf.terms:
                v = tuple(b.AND(c, x) for x in v)
            new[id(i)] = v
        self.env.update(new)
        for i in bb.insts:
            if i.op == "phi":
                continue
            if i.op == "br":
                if i.ops:
                    x = self.get(i.ops[0])[0]
                    t, e = i.succs
                    if t is e:
                        self.out(bb, t, c)
                    else:
                        self.out(bb, t, b.AND(c, x))
                        self.out(bb, e, b.AND(c, b.NOT(x)))
                else:
                    self.out(bb, i.succs[0], c)
            elif i.op == "switch":
                x = self.get(i.ops[0])
                rest = c
                acc = {}
                for val, s in i.cases:
                    e = vf.eq(x, vf.const(val, len(x)))
                    acc[s] = b.OR(acc.get(s, 0), b.AND(c, e))
                    rest = b.AND(rest, b.NOT(e))
                d = i.succs[0]
                acc[d] = b.OR(acc.get(d, 0), rest)
                for s, g in acc.items():
                    self.out(bb, s, g)
            elif i.op == "ret":
                self.rets.append((c, self.get(i.ops[0]) if i.ops else None))
            elif i.op == "unreachable":
                pass
            else:
                v = vf.step(i, c, self.get)
                if isinstance(v, str) and v == "noreturn":
                    return
                self.env[id(i)] = v
                vf.env, vf.get, vf.cur = self.env, self.get, c


SPACE = b" \t\n\r"


class Text:
    """A text from a template: D is any decimal digit, W any white space, O any other byte (not those in `also` either), H any
    hexadecimal digit, K any byte but colon and line end; characters of the template that `plain` marks, and all other
    characters, stand for themselves.  `data` has the bytes, `pre` the condition on the inputs."""

    def __init__(self, vf, tpl, name="file", also=b"", plain=()):
        b = vf.b
        self.tpl, self.vf = tpl, vf
        self.data, self.val, self.pre = [], {}, 1
        for k, ch in enumerate(tpl):
            if k in plain:
                self.data.append(vf.const(ord(ch), 8))
            elif ch in "DH":
                x = [b.atom((name, k, j)) for j in range(4)]
                d = (x[0], b.AND(x[1], b.NOT(x[3])), b.AND(x[2], b.NOT(x[3])), x[3])
                if ch == "D":
                    self.data.append(d + (1, 1, 0, 0))
                    self.val[k] = d
                else:
                    u, up = b.atom((name, k, "letter")), b.atom((name, k, "upper"))
                    # letters: 1 to 6 in the low three bits, from a value 0 to 5
                    l1 = (x[0], b.AND(x[1], b.NOT(x[2])), x[2])
                    one = vf.add(l1 + (0,), vf.const(1, 4))
                    self.data.append(vf.w_ite(u, one[:3] + (0, 0, b.NOT(up), 1, 0), d + (1, 1, 0, 0)))
                    self.val[k] = vf.w_ite(u, vf.add(l1 + (0,), vf.const(10, 4)), d)
            elif ch == "W":
                x = [b.atom((name, k, j)) for j in range(2)]
                w = vf.const(SPACE[0], 8)
                for j, s in enumerate(SPACE[1:], 1):
                    w = vf.w_ite(b.AND(x[0] if j & 1 else b.NOT(x[0]), x[1] if j & 2 else b.NOT(x[1])), vf.const(s, 8), w)
                self.data.append(w)
            elif ch == "O":
                w = vf.opaque((name, k), 8)
                for s in set(b"0123456789-," + SPACE + also):
                    self.pre = b.AND(self.pre, b.NOT(vf.eq(w, vf.const(s, 8))))
                self.data.append(w)
            elif ch == "K":
                # any byte that does not end a key
                w = vf.opaque((name, k), 8)
                for s in b":\n":
                    self.pre = b.AND(self.pre, b.NOT(vf.eq(w, vf.const(s, 8))))
                self.data.append(w)
            else:
                self.data.append(vf.const(ord(ch), 8))

    def number(self, lo, hi, base=10, bits=32):
        n = self.vf.const(0, bits)
        for k in range(lo, hi):
            d = self.val[k] if k in self.val else self.vf.const(int(self.tpl[k], base), 4)
            n = self.vf.add(self.vf.mul(n, self.vf.const(base, bits)), d + (0,) * (bits - 4))
        return n


class File:
    """What open, read and close do to one file: `data` is the list of its bytes, read in the given pieces (all that fits
    into the buffer if there is no list of pieces)."""

    def __init__(self, data, pieces=None):
        self.data, self.pieces = data, pieces
        self.pos = self.k = 0
        self.opened = []                # (guard, name, inst)
        self.texts = set()              # bases that text was read into
        self.room = []                  # (guard, base, off, room or None, inst) of every read
        self.formats = []               # (guard, buffer, size, format, args, inst)

    def hook(self, vf, i, nm, args, c):
        if nm in ("open", "open64"):
            self.opened.append((c, args[0], i))
            return vf.const(3, i.ty.bits)
        if nm == "close":
            return vf.const(0, i.ty.bits)
        if nm == "read":
            left = len(self.data) - self.pos
            room = vf.cval(args[2]) if vf.is_const(args[2]) else None
            if room is None:
                vs = vf.values(args[2], c, 400)
                room = min(v for v, _ in vs) if vs else None
            for g, base, off in args[1].alts:
                if vf.b.AND(c, g):
                    self.room.append((vf.b.AND(c, g), base, off, args[2], i))
                    self.texts.add(base)
            n = left if self.pieces is None else min(left, self.pieces[self.k] if self.k < len(self.pieces) else 0)
            n = 0 if room is None else min(n, max(room, 0))
            self.k += 1
            for j in range(n):
                for g, base, off in args[1].alts:
                    t = vf.b.AND(c, g)
                    if t:
                        vf.store1(base, off + j, self.data[self.pos + j], t, 1)
            self.pos += n
            return vf.const(n, i.ty.bits)
        if nm in ("snprintf", "__snprintf_chk"):
            k = 2 if nm == "snprintf" else 4
            self.formats.append((c, args[0], args[1], args[k], args[k + 1:], i))
            for g, base, off in args[0].alts:
                vf.havoc_base(vf.root(base))
            # the length of the formatted name is an input
            w = vf.opaque(("formatted", i.uid, vf.ctx), 6) + (0,) * (i.ty.bits - 6)
            return w
        return None

    def overflow(self, vf):
        """condition under which a read offers more room than the buffer has; None if not known"""
        b = vf.b
        r = 0
        for g, base, off, room, i in self.room:
            size = vf.allocas.get(base)
            if size is None:
                return None
            vs = vf.values(room, g, 400)
            if vs is None:
                return None
            n = len(room)
            for v, h in vs:
                if off < 0 or v < 0 or off + v > size:
                    r = b.OR(r, h)
        return r


def cstring(vf, p):
    """the constant string that a pointer points to, None if it is not one"""
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        return None
    _, base, off = p.alts[0]
    if base[0] != "g":
        return None
    ic = vf.init_const(base[1])
    out = ""
    while ic is not None and off in ic[0] and vf.is_const(ic[0][off]):
        c = vf.cval(ic[0][off])
        if c == 0:
            return out
        out += chr(c)
        off += 1
    return None


def pure(k):
    """atoms that stand for inputs: any values of them can occur"""
    while isinstance(k, tuple) and k and k[0] != "file" and isinstance(k[0], (tuple, str)):
        if k[0] == "bit":
            k = k[1]
        elif isinstance(k[0], tuple):
            k = k[0]
        else:
            break
    if isinstance(k, tuple) and k and k[0] == "mem":
        # initial contents, not what is left of an array after a write at an unknown place
        return len(k) == 3 and k[1][0] != "elt"
    return isinstance(k, tuple) and k and k[0] in ("file", "callback", "arg", "formatted")


def splits(n):
    """the ways of cutting n bytes into pieces"""
    if n == 0:
        yield []
    for k in range(1, n + 1):
        for r in splits(n - k):
            yield [k] + r


def safety(vf, f, key, out, name, src):
    """the text is only read where it was written, and written only inside the buffer"""
    bad = [(o, i) for g, ba, o, n, i in vf.reads if ba in f.texts and any(o + k not in vf.mem.get(ba, ()) for k in range(n))
           and vf.decide(g, pure)[0] is False]
    out.append((f"{key}: read", not bad, bad[0][1].loc() if bad else src, "the text is read beyond its end", name))
    o = f.overflow(vf)
    ok = None if o is None else vf.decide(o, pure)[0]
    out.append((f"{key}: room", ok, f.room[0][4].loc() if f.room else src, "more is read from the file than fits into the buffer", name))


def open_name(vf, f, want, proc, out, key, name, src):
    """the file opened is the documented one, of the processor asked for"""
    ok, where = None, src
    for c, p, i in f.opened:
        where = i.loc()
        s = cstring(vf, p)
        if s is not None:
            ok = s == want
        elif len(p.alts) == 1:
            fm = [x for x in f.formats if x[1].alts and x[1].alts[0][1:] == p.alts[0][1:]]
            if len(fm) == 1:
                where = fm[0][5].loc()
                s = cstring(vf, fm[0][3])
                if s is not None and "%" in s:
                    ok = s.replace("%d", "%u").replace("%i", "%u").replace("%lu", "%u") == want
                    if ok and proc is not None:
                        a = fm[0][4]
                        ok = None if len(a) != 1 else tuple(a[0][:32]) == proc
                    size = vf.allocas.get(p.alts[0][1])
                    if vf.is_const(fm[0][2]) and size is not None:
                        n = vf.cval(fm[0][2])
                        fits = n <= size and n >= len(want) - 2 + 10 + 1
                        out.append((f"{key}: room for the name", fits, where, "the buffer is too small for the name of the file", name))
        break
    out.append((f"{key}: file", ok, where, f"the file read is not {want}", name))


def agree(vf, guard, x, y):
    """verdict on two words being equal under the guard, bit by bit"""
    ok = True
    for p, q in zip(x, y):
        if p == q:
            continue
        d = vf.b.AND(guard, vf.b.XOR(p, q))
        if d:
            v = vf.decide(d, pure)[0]
            if v is False:
                return False
            if v is None:
                ok = None
    return ok


def each(fn, items, out, name, src):
    """obligations of every item; those that are too much for the analysis (also of processor time) stay undecided"""
    def late(*a):
        raise Truncated("takes too long")
    signal.signal(signal.SIGVTALRM, late)
    for x in items:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, SECONDS)
            try:
                fn(*x)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except (Budget, Truncated) as e:
            out.append((f"{x}: {type(e).__name__}", None, src, str(e), name))
    return out


def both(*vs):
    return False if False in vs else None if None in vs else True
