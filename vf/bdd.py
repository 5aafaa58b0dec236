"""Reduced ordered binary decision diagrams: the canonical domain of Boolean functions."""
import sys

sys.setrecursionlimit(200000)


class Budget(Exception):
    """a function is too large to be represented"""


class BDD:
    F = 0
    T = 1
    limit = 8000000

    def __init__(self):
        self.var = [1 << 60, 1 << 60]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.ite_c = {}
        self.names = []       # var index -> atom key
        self.index = {}       # atom key -> var index
        self.rc = {}

    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.names)
            self.index[key] = i
            self.names.append(key)
        return self.mk(i, 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.var)
            if n > self.limit:
                raise Budget()
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = n
        return n

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if f == g:
            g = 1
        if f == h:
            h = 0
        k = (f, g, h)
        r = self.ite_c.get(k)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        v = min(var[f], var[g], var[h])
        f0, f1 = (lo[f], hi[f]) if var[f] == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if var[g] == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if var[h] == v else (h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ite_c[k] = r
        return r

    def NOT(self, f):
        return self.ite(f, 0, 1)

    def AND(self, f, g):
        if f == 0 or g == 0:
            return 0
        return self.ite(f, g, 0) if f <= g else self.ite(g, f, 0)

    def OR(self, f, g):
        if f == 1 or g == 1:
            return 1
        return self.ite(f, 1, g) if f <= g else self.ite(g, 1, f)

    def XOR(self, f, g):
        return self.ite(f, self.NOT(g), g)

    def implies(self, f, g):
        return self.AND(f, self.NOT(g)) == 0

    def support(self, *fs):
        seen, st, out = set(), list(fs), set()
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            out.add(self.var[n])
            st.append(self.lo[n])
            st.append(self.hi[n])
        return {self.names[i] for i in out}

    def size(self, *fs):
        seen, st = set(), list(fs)
        while st:
            n = st.pop()
            if n < 2 or n in seen:
                continue
            seen.add(n)
            st.append(self.lo[n])
            st.append(self.hi[n])
        return len(seen)

    def restrict(self, f, asg):
        """asg: {var index: 0/1}"""
        memo = {}
        var, lo, hi = self.var, self.lo, self.hi

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                v = var[n]
                if v in asg:
                    r = go(hi[n] if asg[v] else lo[n])
                else:
                    r = self.mk(v, go(lo[n]), go(hi[n]))
                memo[n] = r
            return r
        return go(f)

    def forall(self, f, vs):
        """vs: set of var indices"""
        memo = {}
        var, lo, hi = self.var, self.lo, self.hi

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                a, c = go(lo[n]), go(hi[n])
                r = self.AND(a, c) if var[n] in vs else self.mk(var[n], a, c)
                memo[n] = r
            return r
        return go(f)

    def compose(self, f, sub):
        """sub: {var index: bdd}"""
        memo = {}

        def go(n):
            if n < 2:
                return n
            r = memo.get(n)
            if r is None:
                v = self.var[n]
                c = sub.get(v)
                if c is None:
                    c = self.mk(v, 0, 1)
                r = self.ite(c, go(self.hi[n]), go(self.lo[n]))
                memo[n] = r
            return r
        return go(f)

    def sat_one(self, f):
        """one satisfying partial assignment as {atom key: 0/1} (None if f is False)"""
        if f == 0:
            return None
        out = {}
        while f > 1:
            v = self.var[f]
            if self.lo[f] != 0:
                out[self.names[v]] = 0
                f = self.lo[f]
            else:
                out[self.names[v]] = 1
                f = self.hi[f]
        return out

    def show(self, f, limit=6):
        """readable sum of products (truncated)"""
        if f == 0:
            return "false"
        if f == 1:
            return "true"
        out = []

        def go(n, acc):
            if len(out) > limit:
                return
            if n == 0:
                return
            if n == 1:
                out.append(" & ".join(acc) or "true")
                return
            nm = name(self.names[self.var[n]])
            go(self.hi[n], acc + [nm])
            go(self.lo[n], acc + ["!" + nm])
        go(f, [])
        s = " | ".join(out[:limit])
        return s + (" | ..." if len(out) > limit else "")


def name(k):
    if isinstance(k, tuple):
        if k[0] == "bit":
            return f"{name(k[1])}[{k[2]}]"
        return "(" + " ".join(name(x) for x in k) + ")"
    return str(k)
