"""Typestate analysis of acquired resources (heap blocks, file descriptors, handles).

One forward data-flow analysis per acquisition site.  A state is (status, SSA values that hold the resource, truth of the
few branch conditions that guard acquisitions and releases); states flow along control-flow edges, are refined by the tests
of the resource itself and are never merged across different status values.
"""
from .ir import Arg, Const, Function, Global, Inst
from .prov import root
from .util import callee

HEAP = {"calloc": "free", "malloc": "free", "realloc": "free", "strdup": "free", "aligned_alloc": "free",
        "__sched_cpualloc": "__sched_cpufree"}
FD = {"open": "close", "openat": "close", "open64": "close", "socket": "close", "dup": "close"}
HANDLE = {"fopen": "fclose", "opendir": "closedir", "dlopen": "dlclose", "fdopen": "fclose"}
ACQ = {}
ACQ.update(HEAP)
ACQ.update(FD)
ACQ.update(HANDLE)
REL = set(ACQ.values())

U, L, N, F, P, E = "unacquired", "held", "failed", "released", "published", "escaped"


class Finding:
    __slots__ = ("kind", "site", "inst", "text")

    def __init__(self, kind, site, inst, text):
        self.kind, self.site, self.inst, self.text = kind, site, inst, text


def sites(fn):
    return [i for i in fn.insts if i.op == "call" and callee(i) in ACQ]


def _ckey(c):
    """structural key of a condition, so that repeated tests of the same operands correlate"""
    if isinstance(c, Inst) and c.op == "icmp":
        ops = tuple(id(o) if not isinstance(o, Const) or o.kind not in ("int", "null") else ("k", o.val, o.ty.bits)
                    for o in c.ops)
        neg = {"ne": "eq", "uge": "ult", "ule": "ugt", "sge": "slt", "sle": "sgt"}
        if c.pred in neg:
            return (neg[c.pred],) + ops, False
        return (c.pred,) + ops, True
    return (id(c),), True


class Typestate:
    def __init__(self, fn, site, flag=None, flag_hook=None):
        self.fn, self.site = fn, site
        self.kind = "fd" if callee(site) in FD else "ptr"
        self.release = ACQ[callee(site)]
        self.findings = []
        self._seen = set()
        self.flag_hook = flag_hook
        self.states = 0
        self.relevant = self._relevant()
        self.published_at = []
        self.status_at = {}
        self.run()

    def report(self, kind, inst, text):
        k = (kind, inst.uid)
        if k not in self._seen:
            self._seen.add(k)
            self.findings.append(Finding(kind, self.site, inst, text + self.path()))

    def path(self):
        """source lines of the branches taken since the acquisition"""
        lines, cur = [], self.cur
        while cur and len(lines) < 4000:
            bb, st = cur
            if bb.term.line:
                x = f"{bb.term.file.split('/')[-1]}:{bb.term.line}"
                if not lines or lines[-1] != x:
                    lines.append(x)
            if bb is self.site.bb:
                break
            cur = self.seen[(bb.index, st)]
        lines.reverse()
        if len(lines) > 14:
            lines = lines[:7] + ["..."] + lines[-6:]
        return " (path " + " ".join(lines) + ")"

    def _relevant(self):
        """conditions that are tested at more than one of: the guard of the acquisition, the guards of its releases"""
        may, work = {self.site}, [self.site]
        while work:
            v = work.pop()
            for u in v.users:
                if u not in may and u.op in ("phi", "select", "bitcast", "freeze", "trunc", "sext", "zext", "ptrtoint",
                                             "inttoptr"):
                    may.add(u)
                    work.append(u)
        self.may = may
        cnt = {}
        for bb in self.fn.blocks:
            if any(i.op == "call" and (i is self.site or (callee(i) == self.release and i.args[0] in may))
                   for i in bb.insts):
                for p in bb.preds:
                    if p.term.op == "br" and p.term.ops and not any(o in may for o in getattr(p.term.ops[0], "ops", ())):
                        k, _ = _ckey(p.term.ops[0])
                        cnt[k] = cnt.get(k, 0) + 1
        return {k for k, n in cnt.items() if n > 1}

    # -- conditions
    def cond(self, c, st):
        status, al, facts = st
        if isinstance(c, Const):
            return bool(c.val) if c.kind == "int" else None
        if not isinstance(c, Inst):
            return None
        if c.op == "icmp":
            x, y, pr = c.ops[0], c.ops[1], c.pred
            if y in al and isinstance(x, Const):
                x, y = y, x
                pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge",
                      "uge": "ule"}.get(pr, pr)
            if x in al and isinstance(y, Const):
                if self.kind == "ptr" and (y.kind in ("null", "zero") or y.kind == "int" and y.val == 0):
                    if status == N:
                        return pr == "eq" if pr in ("eq", "ne") else None
                    if status in (L, F, P, E):
                        return pr == "ne" if pr in ("eq", "ne") else None
                elif self.kind == "fd" and y.kind == "int":
                    k = y.val - (1 << 32) if y.val >> 31 else y.val
                    if status == N:
                        v = -1
                        return {"eq": v == k, "ne": v != k, "slt": v < k, "sle": v <= k, "sgt": v > k,
                                "sge": v >= k}.get(pr)
                    if status in (L, F, E):
                        # descriptor is >= 0
                        if k < 0:
                            return {"eq": False, "ne": True, "slt": False, "sle": False, "sgt": True, "sge": True}.get(pr)
                        if k == 0:
                            return {"slt": False, "sge": True}.get(pr)
            k, pos = _ckey(c)
            if k in facts:
                return facts[k] == pos if isinstance(facts, dict) else None
            return None
        if c.op in ("and", "or", "xor") and c.ty.bits == 1:
            a, b = self.cond(c.ops[0], st), self.cond(c.ops[1], st)
            if c.op == "and":
                return False if a is False or b is False else True if a and b else None
            if c.op == "or":
                return True if a or b else False if a is False and b is False else None
            return None if a is None or b is None else a != b
        if c.op == "select" and c.ty.bits == 1:
            a = self.cond(c.ops[0], st)
            if a is not None:
                return self.cond(c.ops[1] if a else c.ops[2], st)
            b, d = self.cond(c.ops[1], st), self.cond(c.ops[2], st)
            return b if b == d else None
        if c.op == "freeze":
            return self.cond(c.ops[0], st)
        k, pos = _ckey(c)
        if k in facts:
            return facts[k] == pos
        return None

    # -- propagation
    def run(self):
        entry = (self.fn.entry, (U, frozenset(), ()))
        work = [entry]
        seen = {(entry[0].index, entry[1]): None}
        self.seen = seen
        while work:
            bb, st = work.pop()
            self.states += 1
            self.cur = (bb, st)
            if self.states > 400000:
                raise RuntimeError("typestate analysis does not converge")
            for nb, ns in self.step(bb, st):
                k = (nb.index, ns)
                if k not in seen:
                    seen[k] = (bb, st)
                    work.append((nb, ns))

    def step(self, bb, st0):
        outs = [(st0[0], set(st0[1]), dict(st0[2]))]
        for i in bb.insts:
            if i.op == "phi":
                continue
            nxt = []
            for status, al, facts in outs:
                nxt += self.inst(i, status, al, facts)
            outs = nxt
            if not outs:
                return []
        res = []
        t = bb.term
        for status, al, facts in outs:
            if t.op == "ret":
                if status == L:
                    self.report("leak", t, "still held when the function returns")
                continue
            if t.op == "unreachable":
                continue
            succs = t.succs
            if t.op == "br" and t.ops:
                v = self.cond(t.ops[0], (status, al, facts))
                cand = [(succs[0], True), (succs[1], False)] if v is None else [(succs[0 if v else 1], v)]
                k, pos = _ckey(t.ops[0])
            else:
                cand = [(s, None) for s in dict.fromkeys(succs)]
                k = None
            for s, v in cand:
                f2 = dict(facts)
                if k is not None and k in self.relevant and v is not None:
                    f2[k] = (v == pos)
                # facts about values redefined in the successor block are stale on re-entry
                al2 = set(al)
                for i in s.insts:
                    if i.op != "phi":
                        break
                    for val, pb in i.inc:
                        if pb is bb:
                            if val in al:
                                al2.add(i)
                            else:
                                al2.discard(i)
                            break
                for i in s.insts:
                    if f2 and i.op in ("icmp", "load", "call", "phi", "trunc", "and"):
                        for fk in list(f2):
                            if id(i) in fk:
                                del f2[fk]
                res.append((s, (status, frozenset(al2), tuple(sorted(f2.items(), key=repr)))))
        return res

    def holds(self, v, al):
        return v in al

    def inst(self, i, status, al, facts):
        if i is self.site:
            if status == L:
                self.report("leak", i, "acquired again while the previous one is still held")
            al2 = {i}
            return [(L, set(al2), facts), (N, set(al2), facts)]
        op = i.op
        if op in ("bitcast", "freeze", "addrspacecast", "trunc", "sext", "zext", "ptrtoint", "inttoptr"):
            if i.ops[0] in al:
                return [(status, al | {i}, facts)]
            return [(status, al - {i}, facts)]
        if op == "select":
            a, b = i.ops[1] in al, i.ops[2] in al
            if a and b:
                return [(status, al | {i}, facts)]
            if a or b:
                v = self.cond(i.ops[0], (status, al, facts))
                if v is not None:
                    return [(status, al | {i} if (a if v else b) else al - {i}, facts)]
                return [(status, al | {i}, facts), (status, al - {i}, facts)]
            return [(status, al - {i}, facts)]
        if op == "load":
            b, off, idx = root(i.ops[0])
            if isinstance(b, Inst) and b.op == "alloca" and not idx:
                if ("mem", b, off) in al:
                    al = al | {i}
                elif i in al:
                    al = al - {i}
            elif status == L and idx and any(isinstance(k, tuple) and k[1] is b for k in al):
                # one of several cells of a local array: not tracked further
                return [(E, al, facts)]
            self.access(i, i.ops[0], status, al)
        elif op == "store":
            if i.ops[0] in al:
                b, off, idx = root(i.ops[1])
                if isinstance(b, Global):
                    if status == L:
                        self.published_at.append(i)
                        return [(P, al, facts)]
                    if status == N:
                        self.published_at.append(i)
                    if status == F:
                        self.report("use after release", i, "published after it was released")
                elif isinstance(b, Inst) and b.op == "alloca" and not idx:
                    al = al | {("mem", b, off)}
                elif status == L:
                    return [(E, al, facts)]
            else:
                b, off, idx = root(i.ops[1])
                if ("mem", b, off) in al and not idx:
                    al = al - {("mem", b, off)}
            self.access(i, i.ops[1], status, al)
        elif op == "call":
            nm = callee(i)
            if nm == self.release and i.args and i.args[0] in al:
                if status == L:
                    return [(F, al, facts)]
                if status == F:
                    self.report("double release", i, "released twice")
                elif status == P:
                    self.report("published released", i, "released although it was published to the users of the library")
                elif status == N and self.kind == "fd":
                    self.report("invalid release", i, "an invalid descriptor is closed")
                return [(F if status != N else N, al, facts)]
            if nm and nm.startswith("llvm.dbg") or nm and nm.startswith("llvm.lifetime"):
                return [(status, al, facts)]
            for a in i.args:
                b = root(a)[0]
                if status == L and isinstance(b, Inst) and b.op == "alloca" and \
                        any(isinstance(k, tuple) and k[1] is b for k in al) and \
                        (not (nm or "").startswith("llvm.") or nm.startswith("llvm.mem") and a is not i.args[0]):
                    status = E
                if a in al or root(a)[0] in al:
                    if nm and "log" in nm and not self.kind == "ptr":
                        continue
                    self.access(i, a, status, al)
                    if nm == "fdopen" and a in al and status == L:
                        return [(E, al, facts)]
        if self.flag_hook and op == "store":
            self.flag_hook(self, i, status, al)
        return [(status, al, facts)]

    def access(self, i, addr, status, al):
        b = root(addr)[0]
        if b not in al and addr not in al:
            return
        if status == F:
            self.report("use after release", i, "used after it was released")
        elif status == N:
            self.report("unchecked", i, "used although the acquisition may have failed")
