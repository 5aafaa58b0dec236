"""Bit vectors of Boolean functions for the linear forms of sym.py."""


class BV:
    def __init__(self, s, b, width, leaf):
        """leaf(key, id) -> list of bits (least significant first) or None"""
        self.s, self.b, self.n, self.leaf = s, b, width, leaf
        self.memo = {}

    def const(self, v):
        return [v >> i & 1 for i in range(self.n)]

    def addv(self, x, y, c=0):
        b, out = self.b, []
        for p, q in zip(x, y):
            t = b.XOR(p, q)
            out.append(b.XOR(t, c))
            c = b.OR(b.AND(p, q), b.AND(c, t))
        return out

    def neg(self, x):
        return self.addv([self.b.NOT(v) for v in x], self.const(0), 1)

    def mulc(self, x, k):
        if k < 0:
            return self.neg(self.mulc(x, -k))
        r = self.const(0)
        i = 0
        while k:
            if k & 1:
                r = self.addv(r, [0] * i + x[:self.n - i])
            k >>= 1
            i += 1
            if i >= self.n:
                break
        return r

    def form(self, f):
        """bits of the form modulo 2^width, None if some leaf is not known"""
        r = self.const(f[0] % (1 << self.n))
        for l, c in f[1]:
            x = self.leafbits(l)
            if x is None:
                return None
            r = self.addv(r, self.mulc(x, c))
        return r

    def leafbits(self, l):
        if l in self.memo:
            return self.memo[l]
        k = self.s.leafs[l]
        r = self.leaf(k, l)
        if r is None and k[0] == "op":
            r = self.op(k[1], self.form(k[2]), self.form(k[3]))
        if r is not None:
            r = list(r)[:self.n] + [0] * (self.n - len(r))
        self.memo[l] = r
        return r

    def op(self, op, x, y):
        b = self.b
        if x is None or y is None:
            return None
        if op in ("and", "or", "xor"):
            f = {"and": b.AND, "or": b.OR, "xor": b.XOR}[op]
            return [f(p, q) for p, q in zip(x, y)]
        if op in ("shl", "lshr"):
            r = x
            for k in range(self.n.bit_length()):
                if k >= len(y):
                    break
                d = 1 << k
                z = ([0] * d + r)[:self.n] if op == "shl" else (r[d:] + [0] * d)[:self.n]
                if d >= self.n:
                    z = [0] * self.n
                r = [b.ite(y[k], p, q) for p, q in zip(z, r)]
            for k in range(self.n.bit_length(), len(y)):
                r = [b.AND(b.NOT(y[k]), p) for p in r]
            return r
        return None
