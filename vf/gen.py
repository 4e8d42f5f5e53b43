"""Workload generators: well-formed DNS data with hostile edges, compressed
packets, and structured mutations of them."""
import struct
from .dns import *

ALLTYPES = sorted(LAYOUT)
STRUCTTYPES = [t for t in ALLTYPES if t != OPT]
OPAQUE = [22, 23, 25, 27, 29, 31, 32, 34, 37, 40, 42, 44, 45, 49, 53, 54, 55, 58, 63, 66, 98, 100, 104, 107,
          110, 249, 250, 251, 255, 258, 259, 32768, 32769, 65280, 65535, 0]
SPECIAL = b".\\\"@;$()' \t\r\n\x00\x7f\xff\x80,=#-0123456789[]{|}~`/:*"


def chance(r, p):
    return r.random() < p


def rbytes(r, n):
    return r.randbytes(n) if n else b""


def u16(r):
    x = r.random()
    if x < .3:
        return r.choice((0, 1, 2, 9, 10, 99, 100, 255, 256, 257, 999, 1000, 9999, 10000, 32767, 32768, 65534, 65535))
    if x < .6:
        return r.randrange(300)
    return r.randrange(65536)


def u32(r):
    x = r.random()
    if x < .3:
        return r.choice((0, 1, 9, 10, 99, 255, 256, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295,
                         999999999, 1000000000))
    if x < .5:
        return r.randrange(100000)
    return r.randrange(1 << 32)


def rtext(r, n):
    """n octets of a random flavour."""
    x = r.random()
    if x < .45:
        return bytes(r.choices(b"abcdefghijklmnopqrstuvwxyzABCXYZ0189-_", k=n))
    if x < .7:
        return bytes(r.choices(SPECIAL, k=n))
    if x < .9:
        return rbytes(r, n)
    return bytes([r.randrange(256)]) * n


def label(r):
    x = r.random()
    if x < .55:
        n = r.randrange(1, 9)
    elif x < .8:
        n = r.randrange(1, 25)
    elif x < .9:
        n = r.choice((1, 31, 32, 61, 62, 63))
    else:
        n = 63
    return rtext(r, n)


WORDS = [b"www", b"example", b"com", b"Example", b"COM", b"a", b"b", b"A", b"net", b"_tcp", b"mail", b"ns1", b"x-1"]


def name(r, maxlen=255):
    x = r.random()
    if x < .06:
        return b"\0"
    if x < .45:
        lab = r.choices(WORDS, k=r.randrange(1, 5))
    elif x < .85:
        lab = [label(r) for _ in range(r.randrange(1, 6))]
    elif x < .9:
        lab = [rtext(r, 1) for _ in range(r.randrange(100, 128))]
    else:
        # close to the limit of 255
        tgt = maxlen - r.choice((0, 0, 0, 1, 1, 2, 3, 5))
        lab, left = [], tgt - 1
        while left >= 2:
            n = min(63, left - 1, r.choice((63, 63, 62, 31, 1, 20)))
            if left - 1 - n == 1:
                n -= 1
            if n < 1:
                break
            lab.append(rtext(r, n))
            left -= n + 1
    out = mkname(lab)
    while len(out) > maxlen:
        lab = lab[1:]
        out = mkname(lab)
    return out


def recase(r, nm):
    return bytes(c ^ 0x20 if (65 <= c <= 90 or 97 <= c <= 122) and chance(r, .5) else c for c in nm)


def str1(r):
    x = r.random()
    n = r.randrange(12) if x < .8 else r.choice((0, 1, 254, 255)) if x < .95 else r.randrange(256)
    return bytes([n]) + rtext(r, n)


def rest(r, lo=0):
    x = r.random()
    n = r.randrange(lo, 40) if x < .85 else r.choice((lo, lo, 1, 2, 3, 63, 64, 65, 127, 128, 255, 256, 257)) if x < .97 \
        else r.randrange(1000)
    return max(lo, n)


def bitmap_types_gen(r):
    x = r.random()
    if x < .1:
        return set()
    s = set()
    for _ in range(r.randrange(1, 12)):
        y = r.random()
        if y < .5:
            s.add(r.choice(list(TYPES)))
        elif y < .7:
            s.add(r.randrange(0, 300))
        elif y < .8:
            s.add(r.choice((0, 1, 7, 8, 255, 256, 257, 511, 512, 65280, 65535, 65534, 32767)))
        else:
            s.add(r.randrange(65536))
    return s


def svc_value(r, k):
    if k == 0:
        return b"".join(struct.pack(">H", r.choice((1, 2, 3, 4, 5, 6, 7, 100, 65534))) for _ in range(r.randrange(1, 5)))
    if k == 1:
        o = b""
        for _ in range(r.randrange(1, 4)):
            x = r.choice((b"h2", b"h3", b"http/1.1")) if chance(r, .4) else \
                (rtext(r, r.randrange(1, 12)) if chance(r, .9) else rtext(r, r.choice((1, 63, 64, 254, 255))))
            o += bytes([len(x)]) + x
        return o
    if k == 2:
        return b""
    if k == 3:
        return struct.pack(">H", u16(r))
    if k == 4:
        return rbytes(r, 4 * r.randrange(1, 4))
    if k == 5:
        return rbytes(r, r.choice((1, 2, 3, 4, 5, 30, 64, 189, 190, 191, 192, 300)) if chance(r, .3) else r.randrange(1, 80))
    if k == 6:
        return b"".join(ip6b(r) for _ in range(r.randrange(1, 4)))
    return rtext(r, r.randrange(0, 20) if chance(r, .9) else r.choice((255, 256, 600)))


def svcparams(r):
    ks = set()
    for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
        ks.add(r.randrange(7) if chance(r, .75) else r.choice((7, 8, 10, 99, 667, 1000, 65280, 65534)))
    o = b""
    for k in sorted(ks) if chance(r, .8) else ks:
        v = svc_value(r, k)
        o += struct.pack(">HH", k, len(v)) + v
    return o


def ip6b(r):
    x = r.random()
    if x < .4:
        return b"".join(struct.pack(">H", 0 if chance(r, .55) else r.choice((1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, r.randrange(65536))))
                        for _ in range(8))
    if x < .5:
        return bytes(10) + struct.pack(">H", r.choice((0, 0xffff, 0xffff, 1, 0xffff ^ 1 << r.randrange(16), r.randrange(65536)))) + rbytes(r, 4)
    if x < .55:
        return bytes(16)
    return rbytes(r, 16)


def long_option(r):
    return r.choice((255, 256, 257, 300, 700, 1024, 1500, 2049, 4100, 8200, 13000))


def optrdata(r):
    o = b""
    for _ in range(r.choice((0, 1, 1, 2, 3, 4))):
        x = r.random()
        if x < .35:
            fam = r.choice((1, 2))
            n = r.randrange(0, 5 if fam == 1 else 17)
            v = struct.pack(">HBB", fam, r.randrange(256), r.randrange(256)) + rbytes(r, n)
            c = 8
        elif x < .6:
            v = struct.pack(">H", r.randrange(0, 27) if chance(r, .85) else u16(r)) + rtext(r, r.randrange(0, 20) if chance(r, .99) else long_option(r))
            c = 15
        else:
            c = r.choice((1, 3, 5, 9, 10, 12, 20292, 65535, 0, 7, 16, 14, u16(r)))
            if c in (8, 15):
                c = 10
            v = rtext(r, r.randrange(0, 24) if chance(r, .99) else long_option(r))
        o += struct.pack(">HH", c, len(v)) + v
    return o


def near_opt(r):
    """Options with one that is malformed, or at the limit of being so."""
    x = r.random()
    if x < .5:
        fam = r.choice((1, 1, 2, 2, 0, 3, 256))
        n = r.choice((0, 3, 4, 5, 6, 8, 15, 16, 17, 18, 20))
        c, v = 8, struct.pack(">HBB", fam, r.randrange(256), r.randrange(256)) + rbytes(r, n)
    elif x < .65:
        c, v = 8, rbytes(r, r.randrange(4))
    elif x < .8:
        c, v = 15, rbytes(r, r.randrange(3))
    else:
        c, v = r.choice((8, 15, 3, 10)), rtext(r, r.randrange(8))
    ln = len(v) if x < .85 else r.choice((len(v) + 1, max(0, len(v) - 1), 65535))
    o = struct.pack(">HH", c, ln) + v
    if r.random() < .1:
        o = o[:r.randrange(len(o))]
    a, b = optrdata(r), optrdata(r)
    return r.choice((b"", a)) + o + r.choice((b"", b))


def near_params(r):
    """SvcParams whose values have wrong, but consistent, lengths."""
    o = svcparams(r) if r.random() < .5 else b""
    for _ in range(r.choice((1, 1, 2))):
        k = r.choice((0, 1, 2, 3, 4, 4, 5, 6, 6, 7, 65535))
        n = r.choice((0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 18, 20, 28, 31, 32, 33, 36))
        v = rbytes(r, n)
        if k == 1 and n and r.random() < .7:
            v = bytes([r.choice((0, 1, n - 1, n, n + 1, 255)) & 255]) + v[1:]
        o += struct.pack(">HH", k, n) + v
    return o


def near(r, rrtype):
    """rdata whose last field is nearly well-formed, its inner lengths included; None for types without inner lengths."""
    fl = fields(r, rrtype) if rrtype in LAYOUT else None
    if rrtype == 41:
        return near_opt(r)
    if not fl:
        return None
    k = fl[-1][0]
    head = b"".join(v for _, v in fl[:-1])
    if k == "v":
        return head + near_params(r)
    n = r.choice((0, 1, 2, 31, 32, 33, 34, 255, 254))
    if k == "m":
        return head + (mkbitmap({r.randrange(1, 300)}) if r.random() < .5 else b"") + bytes([r.randrange(256), n]) + \
            rbytes(r, max(0, n + r.choice((-2, -1, 0, 0, 1, 2))))
    if k in "sSLH":
        return head + bytes([n]) + rbytes(r, max(0, n + r.choice((-2, -1, 0, 0, 1, 2))))
    return None


def field(r, k, lo=0):
    """lo: smallest length of a to-the-end field."""
    if k == "N":
        return name(r)
    if k == "1":
        return bytes([r.choice((0, 1, 9, 10, 99, 100, 127, 128, 254, 255)) if chance(r, .4) else r.randrange(256)])
    if k == "2":
        return struct.pack(">H", u16(r))
    if k == "4":
        return struct.pack(">I", u32(r))
    if k == "a":
        return bytes(r.choice((0, 1, 9, 10, 99, 100, 199, 200, 255, r.randrange(256))) for _ in range(4))
    if k == "q":
        return ip6b(r)
    if k in "s":
        return str1(r)
    if k == "S":
        return b"".join(str1(r) for _ in range(r.choice((1, 1, 1, 2, 3, 5))))
    if k in "xb":
        return rbytes(r, rest(r, lo))
    if k == "t":
        return rtext(r, rest(r, lo))
    if k == "T":
        return struct.pack(">H", 0 if r.random() < .04 else r.choice(list(TYPES)) if chance(r, .6) else u16(r))
    if k == "m":
        return mkbitmap(bitmap_types_gen(r))
    if k in "LH":
        n = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 20, 20)) if chance(r, .9) else r.choice((254, 255, 128, 127, 64))
        return bytes([n]) + rbytes(r, n)
    if k == "6":
        p = r.choice((0, 1, 7, 8, 9, 63, 64, 65, 120, 121, 127, 128)) if chance(r, .5) else r.randrange(129)
        return bytes([p]) + rbytes(r, (128 - p + 7) // 8)
    if k == "e":
        return rbytes(r, 6)
    if k == "E":
        return rbytes(r, 8)
    if k == "v":
        return svcparams(r)
    if k == "o":
        return optrdata(r)
    raise KeyError(k)


def fields(r, rrtype):
    """Complete, well-formed rdata as a list of (kind, octets)."""
    out = []
    lay = LAYOUT[rrtype][1]
    for i, k in enumerate(lay):
        if k == "N" and i and lay[i - 1] == "6" and out[-1][1][0] == 0:
            continue            # A6 with prefix length zero has no name
        out.append((k, field(r, k)))
    return out


def rdata(r, rrtype):
    if rrtype not in LAYOUT:
        return rbytes(r, rest(r))
    return b"".join(b for _, b in fields(r, rrtype))


def big_rdata(r, rrtype, want=0):
    """Well-formed rdata of thousands of octets, where the type allows."""
    want = want or r.choice((4096, 8192, 16383, 16384, 32767, 32768, 32769, 40000, 65535))
    if rrtype not in LAYOUT:
        return rbytes(r, want)
    return b"".join(v for _, v in big_fields(r, rrtype, want))


def big_fields(r, rrtype, want):
    fl = fields(r, rrtype)
    if not fl:
        return fl
    k, v = fl[-1]
    room = want - sum(len(x) for _, x in fl[:-1])
    if k == "S":
        n = (room - 1) // 256
        v = b"".join(b"\xff" + rtext(r, 255) for _ in range(n))
        left = room - len(v)
        v += bytes([left - 1]) + rbytes(r, left - 1)
    elif k in "xb":
        v = rbytes(r, room)
    elif k == "t":
        v = rtext(r, room)
    elif k == "m":
        v = mkbitmap({r.randrange(65536) for _ in range(2000)} | {256 * w + 255 for w in range(256)})
    elif k == "v":
        v = b""
        if room > 65535:
            n = max(r.choice((30000, 1000, 65000)), room - 60000)
            v = struct.pack(">HH", 7, n) + rbytes(r, n)
            room -= len(v)
        v += struct.pack(">HH", r.choice((65280, 9)), room - 4) + rbytes(r, room - 4)
    return fl[:-1] + [(k, v)]


BIGTYPES = [t for t in LAYOUT if LAYOUT[t][1] and LAYOUT[t][1][-1] in "Sxbtmv"]


def any_type(r):
    x = r.random()
    if x < .85:
        return r.choice(STRUCTTYPES)
    if x < .95:
        return r.choice(OPAQUE)
    return r.randrange(65536)


def any_class(r):
    x = r.random()
    return IN if x < .8 else r.choice((CH, HS, NONE, ANY, 0, 2, 5, 65535))


# ------------------------------------------------------------------ packets
class Packet:
    """Assembles a message, compressing names at random."""

    def __init__(self, r, compress=.7):
        self.r, self.c = r, compress
        self.b = bytearray(12)
        self.at = {}          # lower-case? exact suffix octets -> offset
        self.cnt = [0, 0, 0, 0]
        self.marks = []       # interesting offsets (rdlen fields, names)

    def name(self, nm):
        r = self.r
        self.marks.append(len(self.b))
        lab = labels(nm)
        for i in range(len(lab) + 1):
            suf = mkname(lab[i:])
            if suf in self.at and len(suf) > 1 and chance(r, self.c):
                self.b += struct.pack(">H", 0xc000 | r.choice(self.at[suf]))
                return
            if suf == b"\0" and suf in self.at and chance(r, .05):
                self.b += struct.pack(">H", 0xc000 | r.choice(self.at[suf]))
                return
            if len(self.b) < 0x4000:
                self.at.setdefault(suf, []).append(len(self.b))
            if i < len(lab):
                self.b += bytes([len(lab[i])]) + lab[i]
            else:
                self.b += b"\0"

    def question(self, nm, t, c):
        self.name(nm)
        self.b += struct.pack(">HH", t, c)
        self.cnt[0] += 1

    def rr(self, sec, nm, t, c, ttl, flds):
        self.name(nm)
        self.b += struct.pack(">HHI", t, c, ttl)
        p = len(self.b)
        self.marks.append(p)
        self.b += b"\0\0"
        for k, v in flds:
            if k == "N":
                self.name(v)
            else:
                self.b += v
        ln = len(self.b) - p - 2
        if ln > 65535:
            raise Bad("rdata")
        struct.pack_into(">H", self.b, p, ln)
        self.cnt[sec] += 1

    def done(self, ident, flags):
        struct.pack_into(">6H", self.b, 0, ident, flags, *self.cnt)
        return bytes(self.b)


def rr_fields(r, t, c):
    if t not in LAYOUT or class_mismatch(t, c):
        return [("?", rbytes(r, rest(r)))]
    return fields(r, t)


def message(r, nrr=None, optp=.5, types=None):
    """A well-formed message; returns (packet, marks)."""
    p = Packet(r, r.choice((0, .5, .9, 1.0)))
    pool = [name(r, 200) for _ in range(r.randrange(1, 5))]
    for _ in range(r.choice((0, 1, 1, 1, 1, 2))):
        p.question(r.choice(pool), any_type(r) if chance(r, .93) else OPT, any_class(r))
    for sec in (1, 2, 3):
        n = r.choice((0, 0, 1, 1, 2, 3, 5, 8)) if nrr is None else nrr
        groups = []
        for _ in range(max(1, n // 2)):
            t = r.choice(types) if types else any_type(r)
            groups.append((r.choice(pool), t, any_class(r)))
        optat = r.randrange(n + 1) if chance(r, optp if sec == 3 else .04) else -1
        for i in range(n + 1):
            if i == optat:
                for _ in range(1 if chance(r, .9) else 2):
                    ttl = (r.choice((0, 0, 1, 2, 15, 16, 128, 255)) << 24) | (r.choice((0, 0, 1, 255)) << 16) | \
                        r.choice((0, 0x8000, 0x7fff, 0xffff, r.randrange(65536)))
                    p.rr(sec, b"\0" if chance(r, .95) else r.choice(pool), OPT, u16(r), ttl, [("o", optrdata(r))])
            if i == n:
                break
            nm, t, c = r.choice(groups)
            if chance(r, .15):
                c = any_class(r)
            if chance(r, .1):
                t = any_type(r)
            nm = nm if chance(r, .6) else recase(r, nm)
            if t == OPT:
                continue
            if chance(r, .1):
                nm = name(r)
            fl = rr_fields(r, t, c)
            if sum(len(x) for _, x in fl) > 4000 and chance(r, .8):
                continue
            p.rr(sec, nm, t, c, u32(r), fl)
    flags = r.randrange(65536)
    if chance(r, .5):
        flags = flags & 0x87f0 | (r.choice((0, 1, 2, 4, 5)) << 11) | r.choice((0, 0, 0, 3, 5, 8, 10))
    return p.done(r.randrange(65536), flags), p.marks


def mutate(r, b, marks=()):
    """One to three structured corruptions."""
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        x = r.random()
        n = len(b)
        if n == 0:
            b += rbytes(r, r.randrange(20))
        elif x < .2:
            b = b[:r.randrange(n + 1)]
        elif x < .3:
            b = b[:max(0, n - r.randrange(1, 5))]
        elif x < .45 and marks:
            m = r.choice(marks)
            if m + 1 < n:
                if chance(r, .5):
                    v = (b[m] << 8 | b[m + 1]) + r.choice((-2, -1, 1, 2, 255, 256))
                    struct.pack_into(">H", b, m, v & 0xffff)
                else:
                    # pointer: to itself, forwards, to the end, past the end, backwards, ...
                    t = r.choice((m, m + 1, m + 2, m - 1, n, n - 1, n - 2, n + 1, r.randrange(n), r.randrange(0x4000), 0, 12))
                    struct.pack_into(">H", b, m, 0xc000 | (t & 0x3fff))
        elif x < .6:
            b[r.randrange(n)] = r.randrange(256)
        elif x < .7:
            b[r.randrange(n)] = r.choice((0, 1, 63, 64, 65, 127, 128, 191, 192, 193, 255))
        elif x < .78:
            i = r.randrange(n + 1)
            b[i:i] = rbytes(r, r.randrange(1, 6))
        elif x < .86:
            i = r.randrange(n)
            del b[i:i + r.randrange(1, 6)]
        elif x < .93 and n >= 12:
            i = r.choice((4, 6, 8, 10))
            struct.pack_into(">H", b, i, r.choice((0, 1, 2, 3, 100, 65535)))
        else:
            i = r.randrange(n)
            b[i] ^= 1 << r.randrange(8)
    return bytes(b)


def pointer_soup(r):
    """Packets made mostly of labels and pointers."""
    n = r.randrange(1, 40)
    b = bytearray()
    while len(b) < n:
        x = r.random()
        if x < .4:
            b += struct.pack(">H", 0xc000 | r.choice((r.randrange(n + 2), max(0, len(b) - r.randrange(6)), len(b) + r.randrange(3))))
        elif x < .6:
            b.append(0)
        elif x < .9:
            l = r.choice((1, 1, 2, 3, 5, 62, 63))
            b += bytes([l]) + rtext(r, l)
        else:
            b.append(r.choice((64, 65, 127, 128, 191, 192, 255)))
    if chance(r, .3):
        b = b[:r.randrange(1, len(b) + 1)]
    return bytes(b)


def chain(r):
    """Long chains of backward pointers; total length around the limit."""
    b = bytearray(b"\0")
    prev = 0
    tot = 1
    for _ in range(r.randrange(1, 140)):
        l = r.choice((1, 1, 2, 3, 10, 20, 30, 63))
        at = len(b)
        b += bytes([l]) + rtext(r, l) + struct.pack(">H", 0xc000 | prev)
        prev = at
        tot += l + 1
        if tot > 230 and chance(r, .6):
            l = max(1, min(63, 255 - tot + r.choice((-2, -1, 0, 1, 2)) - 1))
            at = len(b)
            b += bytes([l]) + rtext(r, l) + struct.pack(">H", 0xc000 | prev)
            prev = at
            break
    return bytes(b), prev


def mutate_rdata(r, b):
    return mutate(r, b) if b else rbytes(r, r.randrange(1, 8))


def mutate_text(r, s):
    b = bytearray(s)
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        n = len(b)
        x = r.random()
        if x < .25:
            b = b[:r.randrange(n + 1)]
        elif x < .5 and n:
            b[r.randrange(n)] = r.choice(b"\\\"0123456789azAZ.,-: =#{}|~\x01\x7f\x80\xff/+*GgZz")
        elif x < .7:
            i = r.randrange(n + 1)
            b[i:i] = r.choice((b"\\", b"\\\\", b'"', b" ", b"  ", b"\t", b"\\0", b"\\25", b"\\256", b"\\999", b".", b"..",
                               b"=", b",", b"-", b"0", b"1", b"99999999999", b"65536", b"TYPE", b"TYPE65536", b"key",
                               b"key65535", b"alpn", b"alpn=\"\"", b"0x", b"+1", b"-1", b"/", b"{", b"a" * 64, b"\n"))
        elif x < .85 and n:
            i = r.randrange(n)
            del b[i:i + r.randrange(1, 5)]
        elif n:
            i, j = sorted((r.randrange(n + 1), r.randrange(n + 1)))
            b[i:i] = b[i:j]
    return bytes(c for c in b if c)[:6000]
