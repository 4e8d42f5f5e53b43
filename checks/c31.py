from .my import *


def enc(v):
    o = bytearray()
    while v >= 128:
        o.append(v & 127 | 128)
        v >>= 7
    o.append(v)
    return bytes(o)


def val(r):
    k = r.random()
    if k < .5:
        s = r.randrange(0, 65)
        return max(0, min(2 ** 64 - 1, 2 ** s + r.randrange(-2, 3)))
    if k < .6:
        return sum((r.choice((0, 127, 1, 64, r.randrange(128)))) << 7 * i for i in range(r.randrange(1, 10))) % 2 ** 64
    return r.randrange(2 ** 64) >> r.randrange(64)


class C31(Check):
    prop, driver = "C31", DRIVER
    batch, quick, thorough = 5000, 120, 3000
    technique = "round-trip and differential monitor under ASan+UBSan and MSan"
    rule = ("values around every power of two and at random encoded into buffers of the announced size and decoded from buffers "
            "of exactly the encoding's octets; octet strings with and without an end, cut anywhere, measured and (where the "
            "decoder may read that far) decoded; in bulk, runs of values; non-trivial: distinct values or octets")
    assumptions = ["a 32-bit decoder may read 5 octets, a 64-bit one 10, unless the encoding ends before; octets beyond what the "
                   "type can hold are not judged"]
    min_tags = ("round trip",) + tuple("length %d" % i for i in range(1, 11)) + ("measured", "no end", "cut", "empty", "bulk")
    extra_kinds = ("msan", "plain")

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 5), self.batch, 500000), ("plain", 16 if tier == "quick" else 400, 1, 900000)]

    def cases(self, r, n, bi):
        if bi >= 900000:
            return [Case(NUMBULK, [num(max(0, min(2 ** 64 - 1, (1 << 7 * r.randrange(1, 10)) - 5 * 10 ** 5))), num(10 ** 6), num(r.choice((1, 1, 3, 2 ** 40 + 1)))], None, "bulk")]
        out = []
        for _ in range(n):
            if r.random() < .5:
                v = val(r)
                out.append(Case(VARINT, [num(v)], v, ["round trip", "length %d" % len(enc(v))]))
            else:
                k = r.random()
                if k < .4:
                    v = val(r)
                    b = enc(v)
                    tag = "measured"
                    if r.random() < .4:
                        b += r.randbytes(r.randrange(1, 12))
                elif k < .6:
                    b, tag = enc(val(r)), "cut"
                    b = b[:-1]
                    if not b:
                        tag = "empty"
                elif k < .7:
                    b, tag = b"", "empty"
                elif k < .9:
                    b, tag = bytes(r.randrange(128, 256) for _ in range(r.randrange(1, 16))), "no end"
                    if r.random() < .5:
                        b += bytes([r.randrange(128)]) + r.randbytes(r.randrange(0, 4))
                        tag = "measured"
                else:
                    b, tag = r.randbytes(r.randrange(1, 20)), "measured"
                out.append(Case(VARBUF, [b], b, tag))
        return out

    def judge(self, c, rd):
        if c.op == NUMBULK:
            i, e = rd.n(), rd.n()
            return ("bulk", "%d does not round-trip" % rd.n()) if e == 2 else None
        if c.op == VARINT:
            v = c.ctx
            for w, x in ((64, v), (32, v & 0xffffffff)):
                e = enc(x)
                l = rd.n()
                if l != len(e):
                    return ("length", "%d has length %d, announced %d" % (x, len(e), l))
                k, o = rd.n(), rd.b()
                if k != len(e) or o != e:
                    return ("encode%d" % w, "%d encodes to %s (%d), expected %s" % (x, o.hex(), k, e.hex()))
                if w == 64:
                    p = rd.n()
                    if p != len(e):
                        return ("measure", "measured %d, expected %d" % (p, len(e)))
                else:
                    k, d = rd.n(), rd.n()
                    if k != len(e) or d != x:
                        return ("decode32", "%s decodes to %d (%d octets), expected %d" % (e.hex(), d, k, x))
                k, d = rd.n(), rd.n()
                if k != len(e) or d != x:
                    return ("decode64", "%s decodes to %d (%d octets), expected %d" % (e.hex(), d, k, x))
            return None
        b = c.ctx
        end = next((i + 1 for i, x in enumerate(b) if x < 128), 0)
        l = rd.n()
        if l != end:
            return ("measure", "%s measured %d, expected %d" % (b.hex(), l, end))
        k64, d64, k32, d32 = rd.n(), rd.n(), rd.n(), rd.n()
        full = sum((x & 127) << 7 * i for i, x in enumerate(b[:end]))
        for w, k, d, mx in ((64, k64, d64, 10), (32, k32, d32, 5)):
            if end == 0 and len(b) < mx:
                continue
            want = end if 0 < end <= mx else 0
            if k != want:
                return ("decode%d length" % w, "%s: %d octets decoded, expected %d" % (b.hex(), k, want))
            if want and full < 2 ** w and d != full:
                return ("decode%d value" % w, "%s decodes to %d, expected %d" % (b.hex(), d, full))


CHECK = C31()
