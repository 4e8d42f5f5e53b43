from .common import *


def edge_packet(r):
    """Packets on the edge between accepted and refused."""
    p, m = G.message(r, nrr=r.choice((None, 1, 3)))
    x = r.random()
    if x < .4:
        return p, "well-formed"
    b = bytearray(p)
    if x < .55:
        # more announced than there is: ends between two records
        i = r.choice((4, 6, 8, 10))
        v = struct.unpack_from(">H", b, i)[0]
        struct.pack_into(">H", b, i, r.choice((v + 1, v + 2, 65535, max(0, v - 1))))
        return bytes(b), "other counts"
    if x < .65:
        return bytes(b) + G.rbytes(r, r.randrange(1, 9)), "trailing octets"
    if x < .72 and len(b) > 16:
        struct.pack_into(">H", b, 2, r.randrange(65536))
        return bytes(b), "flags"
    return G.mutate(r, p, m), "mutated"


def crowded(r):
    """Many records, or records as long as they can be."""
    p = G.Packet(r, 1)
    nm = G.name(r, 40)
    p.question(nm, 255, 1)
    if r.random() < .3:
        p.rr(r.randrange(1, 4), nm, r.choice((16, 10, 65280)), 1, 5, [("?", (b"\xff" + b"y" * 255) * r.choice((127, 128, 129, 200, 255)))])
        p.rr(3, nm, 1, 1, 5, [("?", b"\1\2\3\4")])
        return p.done(7, 0x8180), "long record"
    for sec in range(1, 4):
        k = r.choice((0, 1, 127, 128, 129, 255, 256, 257, 400))
        same = r.random() < .6
        for i in range(k):
            p.rr(sec, nm if same else b"\2" + struct.pack(">H", i) + b"\0", 1, 1, r.randrange(9), [("?", struct.pack(">I", i))])
    return p.done(7, 0x8180), "many records"


def expanding(r):
    """Rdata that expands to about 65535 octets."""
    p = G.Packet(r, 1)
    nm = b"".join(bytes([l]) + G.rbytes(r, l) for l in (63, 62, r.randrange(1, 64), r.randrange(1, 62))) + b"\0"
    p.question(nm, 255, 1)
    k = 65535 + r.choice((-1, 0, 0, 1, 1, 2, 17, 100))
    pre = {46: b"\0\1\5\2" + b"\0" * 14, 64: b"\0\1", 15: b"\0\5"}
    t = r.choice((46, 46, 64))
    rest = k - len(pre[t]) - len(nm)
    if t == 46:
        rest = G.rbytes(r, rest)
    else:
        rest = struct.pack(">HH", 65280, rest - 4) + G.rbytes(r, rest - 4)
    p.rr(r.randrange(1, 4), nm, t, 1, 5, [("?", pre[t] + b"\xc0\x0c" + rest)])
    return p.done(7, 0x8180), "expanding"


def special(r):
    x = r.random()
    if x < .002:
        return thousands(r), "thousands of records"
    if x < .02:
        return crowded(r) if r.random() < .7 else expanding(r)
    x = r.random()
    if x < .3:
        # long compressed names in the rdata of known types
        c, prev = G.chain(r)
        b = bytearray(struct.pack(">6H", 9, 0x8400, 1, 2, 0, 0)) + b"\1q\0" + b"\0\1\0\1"
        base = len(b)
        # the chain is carried in a NULL record; its pointers are shifted
        c = bytearray(c)
        i = 0
        sh = base + 11
        fixed = bytearray()
        i = 0
        # first octet is the root; then label + pointer groups
        fixed += c[:1]
        i = 1
        last = 0
        while i < len(c):
            l = c[i]
            fixed += c[i:i + 1 + l]
            ptr = struct.unpack_from(">H", c, i + 1 + l)[0] & 0x3fff
            fixed += struct.pack(">H", 0xc000 | (ptr + sh))
            last = i
            i += l + 3
        b += b"\0" + struct.pack(">HHIH", 10, 1, 5, len(fixed)) + fixed
        t = r.choice((2, 15, 33, 6, 14, 46, 47, 65, 35))
        ptr = struct.pack(">H", 0xc000 | (last + sh))
        pre = {2: b"", 15: b"\0\5", 33: b"\0\1\0\2\0\3", 6: b"", 14: b"", 46: b"\0\1\5\2" + b"\0" * 12 + b"\0\7", 47: b"",
               65: b"\0\1", 35: b"\0\1\0\2\1a\1b\1c"}[t]
        post = {6: b"\1a" + ptr + G.rbytes(r, 20), 14: ptr, 46: G.rbytes(r, 9), 47: b"\0\1\x40", 65: b"\0\3\0\2\1\xbb"}.get(t, b"")
        rd = pre + ptr + post
        b += ptr + struct.pack(">HHIH", t, 1, 77, len(rd)) + rd
        return bytes(b), "long compressed names"
    if x < .5:
        # names beyond the reach of a pointer; big packets
        p = G.Packet(r, .9)
        nm = [G.name(r, 120) for _ in range(4)]
        p.question(nm[0], 1, 1)
        p.rr(1, nm[0], 16, 1, 5, [("S", (b"\xff" + b"z" * 255) * r.choice((40, 62, 63, 64, 65, 66)))])
        for i in range(r.randrange(1, 6)):
            t = r.choice((15, 2, 33, 5, 6))
            p.rr(r.choice((1, 1)), r.choice(nm), t, 1, i, G.fields(r, t))
        return p.done(3, 0x8180), "large"
    if x < .7:
        # the same record many times, several OPTs, OPT in every section
        p = G.Packet(r, .9)
        nm = G.name(r, 100)
        for sec in (1, 2, 3):
            for i in range(r.randrange(4)):
                if r.random() < .4:
                    p.rr(sec, b"\0", 41, G.u16(r), G.u32(r), [("o", G.optrdata(r))])
                else:
                    p.rr(sec, G.recase(r, nm), r.choice((1, 28, 16)) if r.random() < .5 else 1, 1, G.u32(r), [("?", b"\1\2\3\4" if r.random() < .5 else G.rbytes(r, 4))])
        return p.done(G.u16(r), G.u16(r)), "repeated"
    # opaque and foreign-class records, with octets that look like pointers
    p = G.Packet(r, .9)
    for i in range(r.randrange(1, 5)):
        t = r.choice(G.OPAQUE) if r.random() < .5 else r.choice([k for k, v in D.LAYOUT.items() if v[0]])
        p.rr(r.choice((1,)), G.name(r, 90), t, r.choice((3, 4, 254, 255, 77)), G.u32(r), [("?", bytes(r.choices(b"\xc0\x0c\x00\x01\x03aAZ", k=r.randrange(30))))])
    return p.done(G.u16(r), G.u16(r)), "opaque"


class C(Check):
    prop = "C06"
    batch, quick, thorough = 800, 48, 2400
    fuzz = 8
    technique = "online comparison of parsed messages with a reference decoder, under ASan+UBSan"
    rule = ("packets from a message grammar, also with other counts, trailing octets and small corruptions, are parsed under "
            "ASan+UBSan and the reported message compared field by field with an independent decoder; non-trivial: accepted "
            "with at least one record")
    min_tags = ("well-formed", "other counts", "trailing octets", "mutated accepted", "mutated refused", "large", "repeated", "opaque",
                "long compressed names", "long record", "many records", "thousands of records", "expanding") + tuple("record " + D.type_text(t) for t in D.LAYOUT if t != 41)
    assumptions = ["the reference decoder (vf/dns.py), written from the RFCs, defines what a packet encodes"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            p, fl = edge_packet(r) if r.random() < .8 else special(r)
            out.append(Case(PARSE, [p, num(0)], tag=fl))
        return out

    def judge(self, case, rd):
        m = model(case.args[0])
        g = Parsed(rd)
        if g.res:
            if m is not None:
                return "refused", "a packet that encodes a message is refused (result %d): %s" % (g.res, case.args[0].hex())
            return None
        if m is None:
            return None     # C08's business
        for k in ("id", "flags", "rcode"):
            if getattr(m, k) != getattr(g, k):
                return k, "%s: packet has %#x, reported %#x\n%s" % (k, getattr(m, k), getattr(g, k), case.args[0].hex())
        for s in range(4):
            want = [(a, b, c, d, NULL if e is None else e) for a, b, c, d, e in m.rrs[s]]
            if want != g.rrs[s]:
                if len(want) != len(g.rrs[s]):
                    return "count", "section %d: packet has %d records, %d reported\n%s" % (s, len(want), len(g.rrs[s]), case.args[0].hex())
                for i, (w, h) in enumerate(zip(want, g.rrs[s])):
                    for f, a, b in zip(("TTL", "type", "class", "owner", "rdata"), w, h):
                        if a != b:
                            return "record " + f, "section %d record %d: %s is %r, reported %r\n%s" % (s, i, f, a, b, case.args[0].hex())
        return None

    def tag(self, case, res):
        t = [case.tag]
        ok = not int.from_bytes(res[0], "little")
        if case.tag == "mutated":
            t.append("mutated accepted" if ok else "mutated refused")
        if ok:
            g = Parsed(Reader(res))
            t += {"record " + D.type_text(x[1]) for s in g.rrs[1:] for x in s}
            t.append("records %d" % min(8, sum(len(s) for s in g.rrs)))
        return t

    def nontrivial(self, case, res):
        return int.from_bytes(res[0], "little") == 0 and len(case.args[0]) > 12


CHECK = C()
