from .common import *
from .c04 import buffer, ok_unpack


def boundary(r):
    """Compressed names whose expansion has 250..260 octets."""
    b = bytearray(G.rbytes(r, r.choice((0, 0, 3, 12))))
    st = len(b)
    target = r.randrange(250, 261)
    tot, prev, n = 1, None, 0
    b.append(0)
    prev = st
    sizes = r.choice(((1, 2, 5, 20, 62, 63), (1, 2, 5, 20, 62, 63), (1,), (1, 1, 1, 2)))
    while tot < target:
        l = min(r.choice(sizes), target - tot - 1)
        if l < 1:
            break
        if target - tot - 1 - l == 1:
            l += 1 if l < 63 else -1
        at = len(b)
        b += bytes([l]) + G.rtext(r, l)
        tot += l + 1
        # the rest of the name: in place when possible, or by pointer
        if r.random() < .15 and prev == st:
            b += b"\0"
        else:
            b += struct.pack(">H", 0xc000 | prev)
        prev = at
        if at >= 0x3fff:
            break
    b += G.rbytes(r, r.choice((0, 0, 1)))
    return bytes(b), prev


def hops(r):
    """Long runs of pointers to pointers, with or without labels between."""
    b = bytearray(b"\1a\0") if r.random() < .7 else bytearray(b"\0")
    prev, tot = 0, len(b)
    for _ in range(r.choice((20, 60, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 3000))):
        at = len(b)
        if r.random() < .02 and tot < 250:
            b += b"\1" + G.rtext(r, 1)
            tot += 2
        b += struct.pack(">H", 0xc000 | prev)
        prev = at
    return bytes(b), prev


def far(r):
    """Pointers near the limits of what 14 bits reach."""
    at = r.choice((0x3ffe, 0x3fff, 0x3ffd, 0x100, 0xff, 0xfe, 0x3f00, 0x2000, 0x4000, 0x4001))
    b = bytearray(b"\x01x\0".ljust(at, b"\0"))
    b += b"\3abc\0"
    p = len(b)
    t = r.choice((at, at + 1, at - 1, 0)) & 0x3fff
    b += b"\2zz" + struct.pack(">H", 0xc000 | t)
    return bytes(b), p


class C(Check):
    prop = "C07"
    batch, quick, thorough = 4000, 40, 2400
    fuzz = 8
    technique = "online comparison of name expansion with a reference decoder, under ASan+UBSan"
    rule = ("names with backward, forward, self and crossing pointers, long pointer chains, expansions of 250..260 octets, "
            "names cut at the end of the buffer; unpack, copy, measure and skip are compared with an independent decoder in "
            "both directions; non-trivial: distinct buffer and offset")
    min_tags = ("unpack done", "unpack refused", "copy done", "copy refused", "measure done", "measure refused", "skip",
                "expanded 255", "expanded 256", "pointers 2+", "pointers 10+",
                "pointers 100+", "pointers 256+")
    assumptions = ["the reference decoder defines the expansion"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .35:
                b, o = buffer(r)
                off = r.choice(o)
            elif x < .65:
                b, off = boundary(r)
                if r.random() < .1:
                    b = b[:r.randrange(off, len(b) + 1)]
            elif x < .72 and i % 4 == 0:
                b, off = far(r)
            elif x < .72 and i % 4 == 1:
                b, off = hops(r)
            elif x < .85:
                p, m = G.message(r)
                if r.random() < .5:
                    p = G.mutate(r, p, m)
                b, off = p, r.choice(m) if m else 12
            else:
                nm = G.name(r) if r.random() < .7 else b"".join(
                    bytes([l]) + G.rtext(r, l) for l in [63, 63, 63] + [r.choice((60, 61, 62, 63))]) + b"\0"
                b, off = nm, 0
                if r.random() < .2:
                    b += G.rbytes(r, 3)
            op = r.choice((UNPACK, UNPACK, UNPACK, SKIP, COPYU, LENU))
            if off > len(b):
                off = len(b)
            if op == LENU:
                b, off = b[off:], 0
                out.append(Case(LENU, [b]))
            else:
                out.append(Case(op, [b, num(off)]))
        return out

    def info(self, case):
        b = case.args[0]
        off = int.from_bytes(case.args[1], "little") if len(case.args) > 1 else 0
        return b, off

    def judge(self, case, rd):
        b, off = self.info(case)
        if case.op == SKIP:
            n = rd.n()
            try:
                w = D.skip(b, off)
            except Bad:
                return None
            if n != w:
                return "skip", "skip reports %d, the name at %d occupies %d octets of %s" % (n, off, w, b.hex())
            return None
        m = ok_unpack(b, off, case.op == UNPACK)
        res = rd.n()
        nm = {UNPACK: "unpack", COPYU: "copy", LENU: "measure"}[case.op]
        if (res == 0) != (m is not None):
            return nm + (" refuses" if m is not None else " accepts"), "result %d for the name at %d of %s; the reference %s" % (
                res, off, b.hex(), "expands it to " + m.hex() if m is not None else "refuses it")
        if res:
            return None
        if case.op == LENU:
            n = rd.n()
            if n != len(m):
                return "measure", "measures %d, the name has %d octets: %s" % (n, len(m), b.hex())
            return None
        sz, d, same, clean = rd.n(), rd.b(), rd.n(), rd.n()
        if sz != len(m) or d != m:
            return nm, "name at %d of %s gives %d octets %s, expected %d octets %s" % (off, b.hex(), sz, d.hex(), len(m), m.hex())
        if not same:
            return nm + " without size", "a different name without the size argument: " + b.hex()
        if not clean:
            return nm + " writes behind", "octets behind the name changed: " + b.hex()
        return None

    def tag(self, case, res):
        b, off = self.info(case)
        if case.op == SKIP:
            return "skip"
        t = [{UNPACK: "unpack", COPYU: "copy", LENU: "measure"}[case.op] + (" refused" if int.from_bytes(res[0], "little") else " done")]
        if case.op == UNPACK:
            o, k, tot, seen = off, 0, 1, 0
            while o < len(b) and b[o] and tot < 400 and seen < 4000:
                seen += 1
                if b[o] >= 192:
                    if o + 1 >= len(b):
                        break
                    p = (b[o] & 63) << 8 | b[o + 1]
                    if p >= o:
                        break
                    o = p
                    k += 1
                elif b[o] < 64:
                    tot += 1 + b[o]
                    o += 1 + b[o]
                else:
                    break
            if tot in (254, 255, 256, 257):
                t.append("expanded %d" % tot)
            if k >= 256:
                t.append("pointers 256+")
            elif k >= 100:
                t.append("pointers 100+")
            elif k >= 10:
                t.append("pointers 10+")
            elif k >= 2:
                t.append("pointers 2+")
        return t

    def nontrivial(self, case, res):
        return len(case.args[0]) > 1


CHECK = C()
