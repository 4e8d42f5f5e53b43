from .common import *


def buffer(r):
    """(octets, interesting offsets)"""
    x = r.random()
    if x < .3:
        b = G.pointer_soup(r)
        return b, [r.randrange(len(b) + 1)]
    if x < .45:
        c, prev = G.chain(r)
        return c, [prev, r.randrange(len(c))]
    if x < .8:
        pre = G.rbytes(r, r.choice((0, 0, 1, 12)))
        nm = G.name(r)
        y = r.random()
        if y < .35:
            nm = nm[:r.randrange(len(nm) + 1)]
        elif y < .6:
            nm = G.mutate(r, nm)
        elif y < .7:
            nm = nm[:-1] + struct.pack(">H", 0xc000 | r.choice((0, len(pre), len(pre) + len(nm) - 1, len(pre) + len(nm), r.randrange(64))))
        b = pre + nm + (G.rbytes(r, r.choice((0, 0, 0, 1, 5))))
        return b, [len(pre), r.randrange(len(b) + 1)]
    if x < .9:
        # overlong names
        b = b"".join(bytes([l]) + G.rtext(r, l) for l in [r.choice((63, 63, 62, 1, 50)) for _ in range(r.randrange(3, 7))]) + b"\0"
        return b[:r.choice((len(b), len(b), r.randrange(len(b))))], [0]
    b = G.rbytes(r, r.randrange(0, 40))
    return b, [r.randrange(len(b) + 1)]


def ser(r):
    t = G.any_type(r)
    rds = [G.rdata(r, t)[:2000] for _ in range(r.choice((0, 1, 1, 2, 4)))]
    b = D.serialize(G.u32(r), t, 1, G.name(r), rds)
    x = r.random()
    if x < .5:
        b = b[:r.randrange(len(b) + 1)]
    elif x < .8:
        b = G.mutate(r, b)
    return b


def ok_unpack(b, off, comp):
    try:
        return D.unpack(b, off, comp)
    except Bad:
        return None


class C(Check):
    prop = "C04"
    batch, quick, thorough = 4000, 32, 1600
    fuzz = 8
    fuzz_env = {"VF_LOOSE": "1"}
    technique = "ASan+UBSan with exact-size buffers; refusals against a reference decoder"
    rule = ("octet strings made of labels, pointers, cut and overlong names and noise, with every routine that takes a raw "
            "name or a serialized RRset, in exact-size heap buffers under ASan+UBSan; refusals are compared with a "
            "reference decoder; non-trivial: non-empty buffer")
    assumptions = ["ASan/UBSan report every out-of-bounds access and undefined operation they instrument"]
    OPS = (UNPACK, SKIP, COPYU, LENU, COUNT, LCHOP, REV, DOWNNAME, D2S, ISSUB, DESER)
    NAMES = dict(zip(OPS, "unpack skip copy measure count chop reverse downcase print subdomain deserialize".split()))
    NAMES[CMP] = "compare"
    min_tags = tuple(NAMES.values()) + ("unpack refused", "copy refused", "measure refused", "count refused", "chop refused",
                                        "reverse refused", "deserialize refused", "unpack done", "copy done", "measure done")

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            op = r.choice(self.OPS + (UNPACK, UNPACK, COPYU, CMP))
            if op == DESER:
                out.append(Case(op, [ser(r)]))
                continue
            b, offs = buffer(r)
            if op in (UNPACK, SKIP, COPYU):
                out.append(Case(op, [b, num(r.choice(offs))]))
            elif op == ISSUB:
                b2, _ = buffer(r)
                out.append(Case(op, [b[:255], b2[:255] if r.random() < .5 else b[-r.randrange(1, 40):][:255]]))
            elif op == CMP:
                a, b2 = b[:255], b[:255]
                out.append(Case(op, [a, num(1), num(1), num(5), G.recase(r, b2) if r.random() < .7 else G.mutate(r, b2)[:255], num(1), num(1), num(5)]))
            elif op in (COUNT, LCHOP, DOWNNAME):
                out.append(Case(op, [b[:255]]))
            elif op == D2S and r.random() < .3:
                # more text than the longest name has
                b = b"".join(bytes([l]) + r.choice((b".", b"\\", b"\0", b"\xff", b"a")) * l for l in [r.choice((63, 62, 255, 1, 50)) for _ in range(r.randrange(3, 8))])
                out.append(Case(op, [b + b"\0" if r.random() < .6 else b], tag="print long"))
            else:
                out.append(Case(op, [b]))
        return out


    def judge(self, case, rd):
        op, b = case.op, case.args[0]
        if op == SKIP:
            off = int.from_bytes(case.args[1], "little")
            n, adv = rd.n(), rd.n()
            if off + n > len(b):
                return "skip-past-end", "skipping at %d reports %d octets of %d" % (off, n, len(b))
            if adv != n:
                return "skip-advance", "skip reports %d octets but moves by %d" % (n, adv)
            return None
        if op in (UNPACK, COPYU):
            off = int.from_bytes(case.args[1], "little")
            res = rd.n()
            m = ok_unpack(b, off, op == UNPACK)
            if not res and m is None:
                return self.NAMES[op] + "-accepts", "accepts a name that does not lie inside the buffer (offset %d): %s" % (off, b.hex())
            if not res:
                sz, d = rd.n(), rd.b()
                same, clean = rd.n(), rd.n()
                if not clean:
                    return self.NAMES[op] + "-writes-past", "writes behind the %d octets of the name" % sz
            return None
        if op == LENU:
            res = rd.n()
            if not res:
                n = rd.n()
                if n > len(b):
                    return "measure-past-end", "measures %d octets in %d" % (n, len(b))
                if ok_unpack(b, 0, False) is None:
                    return "measure-accepts", "accepts a name that runs past the end: " + b.hex()
            return None
        if op == COUNT:
            res = rd.n()
            if not res and ok_unpack(b, 0, False) is None and not self.plain(b):
                return "count-accepts", "counts labels past the end: " + b.hex()
            return None
        if op == LCHOP:
            res = rd.n()
            if not res:
                at, ln, same = rd.n(), rd.n(), rd.n()
                if at + ln > len(b) or ln == 0:
                    return "chop-past-end", "chopping %s gives octets %d..%d" % (b.hex(), at, at + ln)
            return None
        if op == REV:
            res = rd.n()
            if not res and not self.plain(b, True):
                return "reverse-accepts", "reverses a name that runs past the end: " + b.hex()
            return None
        if op == DESER:
            res = rd.n()
            if not res:
                ln = self.ser_len(b)
                if ln is None:
                    return "deserialize-accepts", "accepts an RRset that runs past the end: " + b.hex()
            return None
        return None

    @staticmethod
    def plain(b, any_label=False):
        """The labels of b end with a root octet inside b (whatever their sizes)."""
        i = 0
        while i < len(b):
            if b[i] == 0:
                return True
            if b[i] > 63 and not any_label:
                return False
            i += b[i] + 1
        return False

    @staticmethod
    def ser_len(b):
        if len(b) < 1 or len(b) < 1 + b[0] + 10:
            return None
        i = 1 + b[0] + 8
        n = struct.unpack_from("=H", b, i)[0]
        i += 2
        for _ in range(n):
            if i + 2 > len(b):
                return None
            i += 2 + struct.unpack_from("=H", b, i)[0]
            if i > len(b):
                return None
        return i

    def tag(self, case, res):
        nm = self.NAMES[case.op]
        t = [nm]
        if case.op not in (SKIP, DOWNNAME, D2S, CMP):
            t.append(nm + (" refused" if int.from_bytes(res[0], "little") else " done"))
        return t

    def nontrivial(self, case, res):
        return len(case.args[0]) > 0


CHECK = C()
