from .my import *

B64V = sorted({v for d in range(0, 21) for v in (10 ** d - 1, 10 ** d, 10 ** d + 1) if v < 2 ** 64} |
              {v for s in range(65) for v in (2 ** s - 1, 2 ** s, 2 ** s + 1) if 0 <= v < 2 ** 64})


def val64(r):
    k = r.random()
    if k < .4:
        return r.choice(B64V)
    if k < .7:
        return r.randrange(10 ** r.randrange(1, 20))
    return r.randrange(2 ** 64) >> r.randrange(64)


class C28(Check):
    prop, driver = "C28", DRIVER
    batch, quick, thorough = 5000, 120, 3000
    technique = "differential monitor under ASan+UBSan and MSan"
    rule = ("numbers around every power of 2 and 10 and at random, all 65536 16-bit values, octet strings of all lengths, written "
            "into exact-size buffers of every size from too small to ample; in bulk, consecutive 64-bit values against printf; "
            "non-trivial: distinct calls")
    assumptions = ["a buffer has room for the terminating NUL, and a decimal one for a digit; one too small keeps the low decimal "
                   "digits, or the first whole octets in hexadecimal"]
    min_tags = ("decimal", "decimal short", "decimal full", "hex16", "hex16 short", "hex", "hex short", "bulk")
    extra_kinds = ("msan", "plain")

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 5), self.batch, 500000), ("plain", 16 if tier == "quick" else 400, 1, 900000)]

    def cases(self, r, n, bi):
        if bi >= 900000:
            return [Case(NUMBULK, [num(r.choice((0, 2 ** 32 - 10 ** 6, 2 ** 64 - 10 ** 6, r.randrange(2 ** 64)))), num(10 ** 6),
                                   num(r.choice((1, 1, 3, 10 ** 13 + 7, 2 ** 40 + 1)))], None, "bulk")]
        out = []
        if bi % 100 == 0:
            for v in range(65536):
                if v % 16 == bi // 100 % 16:
                    up = r.randrange(2)
                    out.append(Case(U16HEX, [num(v), num(up), num(5)], (4, (b"%04X" if up else b"%04x") % v), "hex16"))
        for _ in range(n):
            k = r.random()
            if k < .5:
                v = val64(r)
                t = b"%d" % v
                size = r.choice((len(t) + 1, len(t) + 1, len(t) + 2, 32, r.randrange(2, 40)))
                w = t[-(size - 1):]
                out.append(Case(U64STR, [num(v), num(size), num(r.random() < .9)], (len(w), w, size - 1 - len(w)),
                                "decimal short" if len(w) < len(t) else "decimal full" if size == len(t) + 1 else "decimal"))
            elif k < .65:
                v, up, size = r.randrange(65536), r.randrange(2), r.choice((1, 2, 3, 4, 5, 5, 6, 20))
                t = ((b"%04X" if up else b"%04x") % v)[:(size - 1) // 2 * 2]
                out.append(Case(U16HEX, [num(v), num(up), num(size)], (len(t), t), "hex16" if len(t) == 4 else "hex16 short"))
            else:
                b, up = octets(r), r.randrange(2)
                full = 2 * len(b) + 1
                size = full if r.random() < .4 else r.randrange(1, full + 6)
                t = b.hex().encode()
                t = (t.upper() if up else t)[:(size - 1) // 2 * 2]
                out.append(Case(HEX, [b, num(up), num(size)], (len(t), t), "hex" if size >= full else "hex short"))
        return out

    def judge(self, c, rd):
        if c.op == NUMBULK:
            i, e = rd.n(), rd.n()
            if e == 1:
                return ("decimal bulk", "%d is written wrong" % rd.n())
            return None         # the varints of the bulk belong to C31
        k = rd.n()
        if k != c.ctx[0]:
            return ("length op %d" % c.op, "length %d, expected %d" % (k, c.ctx[0]))
        if c.op == U64STR:
            o = rd.n()
            if o != c.ctx[2]:
                return ("start", "the first digit is said to stand at %d, expected %d" % (o, c.ctx[2]))
        t = rd.b()
        if t != c.ctx[1]:
            return ("text op %d" % c.op, "got %r, expected %r" % (t[:200], c.ctx[1][:200]))


CHECK = C28()
