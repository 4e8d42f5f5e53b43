import struct
from .my import *


def addr6(r):
    k = r.random()
    if k < .35:             # every pattern of zero groups
        m = r.randrange(256)
        g = [0 if m >> i & 1 else r.choice((1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, r.randrange(1, 65536))) for i in range(8)]
    elif k < .55:           # embedded IPv4
        g = [0] * 5 + [r.choice((0, 0xffff, 0xffff, 1, 0xffff ^ 1 << r.randrange(16), 1 << r.randrange(16), r.randrange(65536)))] + [r.choice((0, r.randrange(65536))), r.choice((0, 1, r.randrange(65536)))]
        if r.random() < .2:
            g[r.randrange(5)] = r.choice((1, 0xffff))
    elif k < .8:
        g = [r.choice((0, 0, 1, r.randrange(65536))) for _ in range(8)]
    else:
        g = [r.randrange(65536) >> r.randrange(16) for _ in range(8)]
    return struct.pack(">8H", *g)


def addr4(r):
    return bytes(r.choice((0, 1, 9, 10, 11, 19, 20, 99, 100, 101, 109, 110, 199, 200, 201, 209, 210, 249, 250, 255, r.randrange(256))) for _ in range(4))


class C27(Check):
    prop, driver = "C27", DRIVER
    batch, quick, thorough = 200, 48, 3000
    extra_kinds = ("msan",)
    technique = "online comparison with inet_ntop() under ASan+UBSan"
    rule = ("addresses of every pattern of zero groups (all 256), group widths, embedded IPv4 addresses, and all combinations of "
            "octet widths, printed into exact-size buffers and compared with the system's inet_ntop(); short buffers have to be "
            "refused untouched; in bulk, a stride of the IPv4 space; counted are addresses compared (200 per case)")
    assumptions = ["the C library's inet_ntop() is right"]
    min_tags = ("IPv4", "IPv6", "IPv4 by family", "IPv6 by family", "small", "bulk")

    def plan(self, tier):
        return [("asan", self.quick if tier == "quick" else self.thorough, self.batch, 0),
                ("plain", 64, 1, 900000), ("msan", 2 if tier == "quick" else 60, self.batch, 500000)]

    def cases(self, r, n, bi):
        if bi >= 900000:
            i = bi - 900000
            if self.tier == "quick":
                # a 64th of the IPv4 space: an odd stride meets every octet value at every place
                return [Case(NTOP4BULK, [num(i * (1 << 26) + r.randrange(64)), num(1 << 20), num(61)], None, "bulk")]
            return [Case(NTOP4BULK, [num(i << 26), num(1 << 26), num(1)], None, "bulk")]
        out = []
        for _ in range(n):
            k = r.random()
            if k < .35:
                out.append(Case(NTOP, [num(4), b"".join(addr4(r) for _ in range(200)), num(r.randrange(2))], None, None))
            elif k < .97:
                out.append(Case(NTOP, [num(6), b"".join(addr6(r) for _ in range(200)), num(r.randrange(2))], None, None))
            else:
                af = r.choice((4, 6, 6, 99))
                out.append(Case(NTOPSMALL, [num(af), num(r.randrange(0, {4: 16, 6: 46, 99: 16}[af]))], None, "small"))
            c = out[-1]
            if c.op == NTOP:
                c.tag = "IPv%d%s" % (c.args[0][0], " by family" if c.args[2][0] else "")
        return out

    def judge(self, c, rd):
        if c.op == NTOPSMALL:
            a, b = rd.n(), rd.n()
            return None if a and b else ("small buffer", "an address was printed into a buffer of %d octets" % c.args[1][0])
        done = rd.n()
        if rd.left():
            a = rd.b()
            return ("address text", "%s prints as %r, expected %r" % (a.hex(), rd.s(), rd.s()))
        want = len(c.args[1]) // (4 if c.args[0][0] == 4 else 16) if c.op == NTOP else int.from_bytes(c.args[1], "little")
        self_n = done
        return None if done == want else ("address count", "%d of %d" % (self_n, want))



CHECK = C27()
