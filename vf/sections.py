"""Files made of `key : value` lines in sections per processor, and what they are meant to do to an array of records."""
from .strflow import File, StrFlow, Text, agree, both, pure, safety


class Lines:
    """Text of lines (key, value): the key is literal unless it consists of the letter K, the value is a template; a line end
    that ends in $ is left out after the last line."""

    def __init__(self, vf, lines, sep="\t: ", end="\n", also=b""):
        tpl, plain, self.pos = "", set(), []
        for key, val in lines:
            k0 = len(tpl)
            if set(key) != {"K"}:
                plain |= set(range(k0, k0 + len(key)))
            tpl += key + sep
            v0 = len(tpl)
            tpl += val
            self.pos.append((k0, k0 + len(key), v0, len(tpl)))
            tpl += end.rstrip("$")
        if end.endswith("$"):
            tpl = tpl[:self.pos[-1][3]]
        self.text = Text(vf, tpl, also=also, plain=plain)


class Records:
    """what an array of records should hold"""

    def __init__(self, vf, base, stride, count, fields):
        self.vf, self.base, self.stride, self.count, self.fields = vf, base, stride, count, fields
        self.init = {k: [vf.byte(base, k * stride + j) for j in range(stride)] for k in range(-1, count + 1)}
        self.rec = {k: {f: sum(self.init[k][o:o + n], ()) for f, (o, n) in fields.items()} for k in range(count)}
        self.cur = vf.const(0, 32)
        self.loose = {}                 # field -> bits that are not compared

    def update(self, field, fn, cond=1):
        vf = self.vf
        for k in range(self.count):
            c = vf.b.AND(cond, vf.eq(self.cur, vf.const(k, 32)))
            if c and field in self.rec[k]:
                old = self.rec[k][field]
                self.rec[k][field] = vf.w_ite(c, fn(old), old)

    def set_bits(self, field, mask, cond=1):
        vf = self.vf
        self.update(field, lambda w: tuple(1 if (mask >> j) & 1 else x for j, x in enumerate(w)), cond)

    def set_field(self, field, lo, n, word, cond=1):
        self.update(field, lambda w: w[:lo] + tuple(word[:n]) + w[lo + n:], cond)

    def set(self, field, word, cond=1):
        self.update(field, lambda w: tuple(word[:len(w)]) + (0,) * (len(w) - len(word)), cond)

    def compare(self, guard):
        """-> (verdict, what differs)"""
        vf = self.vf
        ok, what = True, ""
        for k in range(-1, self.count + 1):
            want = list(self.init[k])
            names, mask = {}, {}
            if k in self.rec:
                for f, (o, n) in self.fields.items():
                    for j in range(n):
                        want[o + j] = self.rec[k][f][8 * j:8 * j + 8]
                        mask[o + j] = self.loose.get(f, 0) >> (8 * j) & 255
                        names[o + j] = f
            for j in range(self.stride):
                have = vf.byte(self.base, k * self.stride + j)
                keep = [q for q in range(8) if not mask.get(j, 0) >> q & 1]
                v = agree(vf, guard, tuple(have[q] for q in keep), tuple(want[j][q] for q in keep))
                if v is False:
                    who = f"of processor {k}" if k in self.rec else "outside the array"
                    return False, f"{names.get(j, 'another field')} {who}"
                ok = both(ok, v)
        return ok, what
