from .common import *

SPECIFIC = [t for t in D.LAYOUT if D.LAYOUT[t][0] == 1]


def opaque(r):
    """(type, class, rdata): neither field structure nor names."""
    if r.random() < .5:
        t = r.choice(G.OPAQUE) if r.random() < .7 else r.randrange(260, 65536)
        if t in D.LAYOUT:
            t = 65280
        c = G.any_class(r)
    else:
        t = r.choice(SPECIFIC)
        c = r.choice((2, 3, 4, 254, 255, 0, 5, 65535))
    x = r.random()
    if x < .3:
        rd = G.rbytes(r, G.rest(r))
    elif x < .6:
        # what looks like names and pointers has to stay as it is
        rd = b"".join(r.choice((G.name(r, 60), b"\xc0\x0c", b"\xc0\x00", b"\x03WWW\xc0\x0c", b"\xff\xff", b"\x3fABC", b"ABC", b"\0", b"\xc0")) for _ in range(r.randrange(1, 4)))
    elif x < .9:
        rd = G.rdata(r, r.choice(SPECIFIC))
        if r.random() < .5:
            rd = G.mutate_rdata(r, rd)
    else:
        rd = b""
    if x < .3 and r.random() < .01:
        return t, c, G.rbytes(r, r.choice((4096, 32767, 32768, 40000, 65000)))
    return t, c, rd[:3000]


class C(Check):
    prop = "C16"
    batch, quick, thorough = 2000, 64, 3600
    fuzz = 8
    technique = "octet-for-octet conservation monitor on opaque rdata"
    rule = ("rdata of unknown types, and of class-specific types in foreign classes, holding noise, names, compression pointers "
            "and broken fields: taken from packets, downcased, serialized, printed and read back; every octet has to come "
            "through; non-trivial: non-empty rdata")
    min_tags = ("packet unknown", "packet foreign", "downcase rdata unknown", "downcase rdata foreign", "downcase rrset", "serialize", "text", "sort", "long text")
    assumptions = ["class-specific types in another class have no text form (they print as nothing)"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            t, c, rd = opaque(r)
            un = "foreign" if t in D.LAYOUT else "unknown"
            x = r.random()
            if x < .4:
                p = G.Packet(r)
                own = G.name(r, 80)
                if r.random() < .5:
                    p.question(own, 1, 1)
                sec = r.randrange(1, 4)
                k = r.randrange(1, 4)
                rds = []
                for j in range(k):
                    v = rd if j == 0 or len(rd) <= 3000 and r.random() < .3 else opaque(r)[2][:3000]
                    rds.append(v)
                    p.rr(sec, own, t, c, 5, [("?", v)])
                out.append(Case(PARSE, [p.done(1, 0x8180), num(0)], ctx=(sec, t, c, own, rds), tag="packet " + un))
            elif x < .6:
                out.append(Case(DOWNRDATA, [rd, num(t), num(c)], tag="downcase rdata " + un))
            elif x < .68:
                out.append(Case(DOWNRRSET, rrset_args(G.name(r, 80), t, c, G.u32(r), [rd, opaque(r)[2]]), tag="downcase rrset"))
            elif x < .76:
                out.append(Case(SER, rrset_args(G.name(r, 80), t, c, G.u32(r), [rd, opaque(r)[2]]), tag="serialize"))
            elif x < .8:
                out.append(Case(SORT, rrset_args(G.name(r, 80), t, c, G.u32(r), [rd, rd[:-1], rd + b"\0"]), tag="sort"))
            elif t not in D.LAYOUT:
                lg = r.random() < .01
                if lg:
                    rd = G.rbytes(r, r.choice((5000, 9999, 10000, 16383, 16384, 32767, 32768, 40000, 65535)))
                out.append(Case(RTRIP, [rd, num(t), num(c)], tag="long text" if lg else "text"))
        return out

    def fuzz_seeds(self, r, bi):
        return [c for c in self.cases(r, 800, bi) if c.op != PARSE]

    def from_fuzz(self, op, args):
        i = 1
        t, c = num_(args[i]), num_(args[i + 1])
        if D.layout(t, c) is not None or op == RTRIP and t in D.LAYOUT:
            return None
        return Case(op, args, None, "found")

    def judge(self, case, rd):
        a = case.args
        if case.op == PARSE:
            sec, t, c, own, rds = case.ctx
            m = Parsed(rd)
            nm = "%s/%s" % (D.type_text(t), D.class_text(c))
            if m.res:
                return "packet refused", "a packet with %s rdata %s is refused (%d)" % (nm, [x.hex() for x in rds], m.res)
            got = [(x[1], x[2], x[4]) for x in m.rrs[sec]]
            if got != [(t, c, x) for x in rds]:
                return "packet rdata", "%s rdata %s is taken as %s" % (nm, [x.hex() for x in rds], [(x[0], x[1], x[2].hex()) for x in got])
            if [x for s in m.rrsets[sec] for x in s[4]] != rds:
                return "packet rrset", "%s rdata %s is collected as %r" % (nm, [x.hex() for x in rds], m.rrsets[sec])
            return None
        if case.op == DOWNRDATA:
            res, ln, g = rd.n(), rd.n(), rd.b()
            if res or ln != len(a[0]) or g != a[0]:
                return "downcase", "type %d class %d rdata %s becomes %s (%d)" % (num_(a[1]), num_(a[2]), a[0].hex(), g.hex(), res)
            return None
        if case.op in (DOWNRRSET, SORT):
            res, s = rd.n(), read_rrset(rd)
            rds = list(a[4:])
            if res or s[1:3] != [num_(a[1]), num_(a[2])] or sorted(s[4]) != sorted(rds) or case.op == DOWNRRSET and s[4] != rds:
                return "rrset", "rdatas %s become %s (%d)" % ([x.hex() for x in rds], [x.hex() for x in s[4]], res)
            return None
        if case.op == SER:
            res, sz = rd.n(), rd.n()
            if res:
                return "serialize refused", "an RRset of type %d is refused" % num_(a[1])
            for _ in range(3):
                rd.b()
            rd.b(), rd.b()
            read_rrset(rd)
            res = rd.n()
            if res or read_rrset(rd)[4] != list(a[4:]):
                return "serialize", "rdatas %s do not come back (%d)" % ([x.hex() for x in a[4:]], res)
            return None
        if case.op == RTRIP:
            w = a[0]
            s, res = rd.s(), rd.n()
            if not generic_ok(s, w):
                return "generic text", "type %d rdata %s prints as %r" % (num_(a[1]), w.hex(), s)
            if res:
                return "generic refused", "type %d rdata %s prints as %r, which is refused (%d)" % (num_(a[1]), w.hex(), s, res)
            g = rd.b()
            if g != w:
                return "generic misread", "type %d rdata %s prints as %r, which reads as %s" % (num_(a[1]), w.hex(), s, g.hex())

    def nontrivial(self, case, res):
        return len(case.args[0]) > 0


def num_(b):
    return int.from_bytes(b, "little")


def generic_ok(s, w):
    p = s.split()
    return len(p) >= 2 and p[0] == "\\#" and p[1] == str(len(w)) and "".join(p[2:]).lower() == w.hex() and \
        s.startswith("\\# ") and "\n" not in s


CHECK = C()
