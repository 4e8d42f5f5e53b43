from .common import *
from .c06 import edge_packet, special, expanding


def one_bad_record(r):
    """A packet that is well-formed but for one record; (packet, kind)."""
    p = G.Packet(r, .5)
    own = G.name(r, 80)
    p.question(own, 1, 1)
    good = r.randrange(3)
    sec = r.choice((1, 1, 2, 3))
    for i in range(good):
        t = r.choice((1, 15, 16))
        p.rr(sec, own, t, 1, 60, G.fields(r, t))
    t = r.choice(G.STRUCTTYPES)
    fl = G.fields(r, t)
    kind = r.choice(("short", "long", "inside", "bitmap", "prefix", "svc", "string", "name", "cut", "rdlen", "owner"))
    lay = D.LAYOUT[t][1]
    if kind == "bitmap":
        t = r.choice((47, 50, 62))
        fl = G.fields(r, t)
        w = r.choice((b"\0\0", b"\0\x21" + bytes(33), b"\1\0", b"\0\x20" + bytes(31), b"\0", b"\0\1", b"\0\1\x40\0", b"\0\xff" + bytes(255)))
        fl[-1] = ("m", fl[-1][1] + w)
    elif kind == "prefix":
        t = 38
        fl = [("6", bytes([r.choice((129, 130, 136, 255, 200))]) + G.rbytes(r, r.choice((0, 16, 1)))), ("N", G.name(r))]
    elif kind == "svc":
        t = r.choice((64, 65))
        bad = r.choice((struct.pack(">HH", 3, 1) + b"\1", struct.pack(">HH", 3, 3) + b"abc", struct.pack(">HH", 1, 0),
                        struct.pack(">HH", 1, 3) + b"\3h2", struct.pack(">HH", 1, 4) + b"\2h2\1", struct.pack(">HH", 2, 1) + b"x",
                        struct.pack(">HH", 4, 5) + b"abcde", struct.pack(">HH", 4, 3) + b"abc", struct.pack(">HH", 6, 15) + bytes(15),
                        struct.pack(">HH", 6, 17) + bytes(17), struct.pack(">HH", 0, 1) + b"\1", struct.pack(">HH", 0, 3) + b"\0\1\0",
                        struct.pack(">HH", 65535, 1) + b"a", struct.pack(">HH", 7, 5) + b"abcd", b"\0", b"\0\3\0", b"\0\7\0\1",
                        struct.pack(">HH", 99, 65535) + b"abcd", struct.pack(">HH", 99, 65533) + b"abcd"))
        a, b = G.svcparams(r), G.svcparams(r) if r.random() < .3 else b""
        fl = [("2", b"\0\1"), ("N", G.name(r)), ("v", a + bad + (b if len(bad) > 4 and r.random() < .5 else b""))]
    elif kind == "string":
        t = r.choice((13, 16, 20, 99, 19, 35, 257))
        fl = G.fields(r, t)
        idx = [i for i, (k, v) in enumerate(fl) if k in "sS"]
        i = r.choice(idx)
        if len(fl) - 1 == i:
            fl[i] = (fl[i][0], bytes([r.choice((1, 5, 255))]))
        else:
            fl = fl[:i] + [("?", bytes([r.choice((9, 255))]) + b"ab")]
    elif kind == "name":
        t = r.choice([x for x in G.STRUCTTYPES if "N" in D.LAYOUT[x][1]])
        fl = G.fields(r, t)
        idx = [i for i, (k, v) in enumerate(fl) if k == "N"]
        if idx:
            i = r.choice(idx)
            bad = r.choice((b"\xc0", b"\x40a", b"\x80", b"\xbf\x00", b"\xff\xff", b"\x05abc", b"\x3f" + b"a" * 10,
                            (b"\x3f" + b"a" * 63) * 4 + b"\0", b"\xc0\xff\xff"))
            fl = fl[:i] + [("?", bad)]
    elif kind == "short":
        i = r.randrange(len(fl))
        v = fl[i][1]
        if len(v) > 1 and fl[i][0] not in "xbtmvS":
            fl = fl[:i] + [("?", v[:r.randrange(1, len(v))])]
    elif kind == "long":
        fl = fl + [("?", G.rbytes(r, r.choice((1, 1, 2, 5))))]
    elif kind == "inside":
        i = r.randrange(len(fl))
        fl[i] = ("?", G.mutate(r, fl[i][1])[:2000])
    p.rr(sec, own, t, 1, 60, fl)
    mark = p.marks[-1]
    after = r.randrange(2)
    for i in range(after):
        p.rr(3, own, 1, 1, 60, G.fields(r, 1))
    b = bytearray(p.done(7, 0x8180))
    if kind == "cut":
        b = b[:r.randrange(len(b))]
    elif kind == "rdlen":
        rdl = [m for m in p.marks]
        m = r.choice(rdl)
        if m + 1 < len(b):
            v = struct.unpack_from(">H", b, m)[0]
            struct.pack_into(">H", b, m, (v + r.choice((-1, 1, -2, 2, 10, 1000, 65000))) & 0xffff)
    elif kind == "owner":
        m = r.choice(p.marks)
        b[m] = r.choice((64, 128, 191, 192, 255, 63))
    return bytes(b), kind


class C(Check):
    prop = "C08"
    batch, quick, thorough = 1200, 48, 2400
    fuzz = 8
    technique = "fault injection into packets; acceptance monitored against a reference decoder"
    rule = ("packets well-formed but for one defect (cut anywhere, bad rdlength, bad name, field too short or too long, bad "
            "bitmap, prefix, string, SvcParam), and mutated ones: accepted only if an independent decoder accepts; after a "
            "refusal the message has to be empty; non-trivial: the reference refuses the packet")
    KINDS = ("short", "long", "inside", "bitmap", "prefix", "svc", "string", "name", "cut", "rdlen", "owner")
    min_tags = tuple("refused " + k for k in KINDS) + ("refused expanding", "accepted expanding", "refused header", "refused mutated", "accepted mutated", "refused prefix of a message")
    assumptions = ["the reference decoder defines which packets are malformed; rdata that ends between two fields of its type is "
                   "accepted by the library's design"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .65:
                p, k = one_bad_record(r)
            elif x < .9:
                p, m = G.message(r)
                p, k = G.mutate(r, p, m), "mutated"
            elif x < .905:
                p, k = expanding(r)
            elif x < .95:
                p, k = special(r)
                p, k = G.mutate(r, p), "mutated"
            else:
                p, k = G.rbytes(r, r.randrange(12)), "header"
            out.append(Case(PARSE, [p, num(0)], tag=k))
        # every prefix of one message
        p, m = G.message(r, nrr=1)
        if len(p) < 400:
            out += [Case(PARSE, [p[:k], num(0)], tag="prefix of a message") for k in range(len(p))]
        return out

    def judge(self, case, rd):
        m = model(case.args[0])
        g = Parsed(rd)
        if not g.res and m is None:
            return "accepts " + case.tag, "a malformed packet is accepted: " + case.args[0].hex()
        if g.res and not g.empty:
            return "partial message", "the packet is refused but the message is not empty: " + case.args[0].hex()
        return None

    def tag(self, case, res):
        return ("refused " if int.from_bytes(res[0], "little") else "accepted ") + case.tag

    def nontrivial(self, case, res):
        return int.from_bytes(res[0], "little") != 0


CHECK = C()
