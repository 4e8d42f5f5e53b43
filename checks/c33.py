from .my import *


class C33(Check):
    prop, driver = "C33", DRIVER
    batch, quick, thorough = 6000, 160, 3000
    extra_kinds, msan = ("msan",), .04
    technique = "differential monitor against integer arithmetic, under ASan+UBSan"
    rule = ("addresses with runs of 00 and ff octets at every place, boundary and random ones, with every prefix length 0..32 and "
            "0..128, results into separate buffers and in place, compared with 32- and 128-bit integer arithmetic; "
            "non-trivial: distinct (address, prefix length)")
    min_tags = tuple("IPv4 /%d" % i for i in range(33)) + tuple("IPv6 /%d" % i for i in range(129)) + ("carry 4", "carry 6", "wrap")
    assumptions = ["the next address after the last one is the first"]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            w = r.choice((4, 16, 16))
            k = r.random()
            if k < .3:
                a = r.randbytes(w)
            elif k < .7:
                i = r.randrange(w + 1)
                a = (r.randbytes(i) + bytes([r.choice((0, 255))]) * (w - i))
            else:
                a = bytes(r.choice((0, 255, 254, 1, 127, 128)) for _ in range(w))
            p = r.randrange(w * 8 + 1)
            t = ["IPv%d /%d" % (4 if w == 4 else 6, p)]
            if a == b"\xff" * w:
                t.append("wrap")
            if a[-1] == 255:
                t.append("carry %d" % (4 if w == 4 else 6))
            out.append(Case(IP, [a, num(p)], None, t))
        return out

    def judge(self, c, rd):
        a, p = c.args[0], int.from_bytes(c.args[1], "little")
        w = len(a)
        v, host = int.from_bytes(a, "big"), (1 << (8 * w - p)) - 1
        lo, hi = (v & ~host).to_bytes(w, "big"), (v | host).to_bytes(w, "big")
        nx = ((v + 1) % (1 << 8 * w)).to_bytes(w, "big")
        for what, want in (("lower", lo), ("upper", hi), (None, None), ("next", nx), ("lower in place", lo), ("upper in place", hi)):
            if what is None:
                if not rd.n():
                    return ("argument changed", "the address was changed")
                continue
            g = rd.b()
            if g != want:
                return ("%s %d" % (what, w), "%s/%d: %s is %s, expected %s" % (a.hex(), p, what, g.hex(), want.hex()))


CHECK = C33()
