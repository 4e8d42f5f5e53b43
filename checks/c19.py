from .common import *


def rrset(r, small=False):
    t = G.any_type(r)
    k = r.choice((0, 1, 1, 2, 3, 5, 8)) if r.random() < .97 else r.choice((40, 255, 255, 256, 256, 257, 300, 4000))
    if small:
        k = min(k, 300)
    rds = []
    for _ in range(k):
        x = r.random()
        v = b"" if x < .1 else G.rbytes(r, r.choice((1, 2, 3, 10, 254, 255, 256, 257))) if x < .4 else G.rdata(r, t)
        if small or k > 10:
            v = v[:r.randrange(1, 40)]
        rds.append(v)
    if not small and r.random() < .02:
        rds.append(G.rbytes(r, r.choice((4096, 32767, 32768, 65534, 65535))))
    if r.random() < (.004 if small else .006):
        # as many rdatas, or as many octets in all, as nothing but the count's own 16 bits limits
        x = r.random()
        if x < .5:
            rds = [b"" if r.random() < .3 else bytes([j & 255]) for j in range(r.choice((4095, 4096, 4097, 5000, 16384, 32767, 32768, 40000, 65534, 65535)))]
        elif x < .75:
            rds = [G.rbytes(r, 40000), G.rbytes(r, r.choice((25480, 25500, 25519, 25520, 25536, 30000, 65535)))]
        else:
            rds = [G.rbytes(r, r.choice((0, 1, 300, 9000, 20000))) for _ in range(r.choice((8, 12, 20)))]
    nm = G.name(r)
    return rrset_args(nm, t, G.any_class(r), G.u32(r), rds)


class C(Check):
    prop = "C19"
    batch, quick, thorough = 1500, 64, 3600
    fuzz = 8
    technique = "round-trip and truncation monitor on serialized RRsets"
    rule = ("RRsets with 0 to 65535 rdatas of 0 to 65535 octets: serialized size with and without a buffer, octets written into an "
            "exact-size buffer (twice, over different garbage), the argument unchanged, deserialization equal; and every proper "
            "prefix of the serialized form has to be refused; non-trivial: distinct RRsets")
    min_tags = ("round trip", "prefixes", "no rdata", "many rdatas", "more than 4096 rdatas", "more than 65535 octets", "long prefixes", "long rdata", "empty rdata", "255 octet name")
    assumptions = ["the octets themselves are only compared to have all the content (the layout is the library's own); "
                   "octets that follow a serialized RRset are ignored"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            if r.random() < .75:
                out.append(Case(SER, rrset(r)))
            else:
                out.append(Case(TRUNC, rrset(r, True)))
        return out

    def judge(self, case, rd):
        a = case.args
        if case.op == TRUNC:
            bad, first = rd.n(), rd.n()
            if bad:
                return "prefix accepted", "%d proper prefixes of a serialized RRset (the shortest of %d octets) are accepted, or leave something behind when refused" % (bad, first)
            return None
        num_ = lambda b: int.from_bytes(b, "little")
        want = [num_(a[3]), num_(a[1]), num_(a[2]), a[0], list(a[4:])]
        sizes, bufs = [], []
        res = rd.n(); sizes.append(rd.n())
        r2 = rd.n(); sizes.append(rd.n()); bufs.append(rd.b())
        r3 = rd.n(); bufs.append(rd.b())
        if res or r2 or r3:
            return "refused", "serializing is refused (%d %d %d)" % (res, r2, r3)
        if sizes[0] != sizes[1]:
            return "sizes differ", "%d octets announced, %d written" % tuple(sizes)
        if bufs[0] != bufs[1]:
            return "octets not all written", "the same RRset serializes differently over different garbage: %s / %s" % (bufs[0].hex()[:2000], bufs[1].hex()[:2000])
        s = read_rrset(rd)
        if s != want:
            return "argument changed", "serializing changes the RRset: %r" % s
        res = rd.n()
        if res:
            return "not restored", "the serialized RRset is refused (%d): %s" % (res, bufs[0].hex()[:2000])
        s = read_rrset(rd)
        if s != want:
            return "restored wrongly", "expected %r\ngot %r" % (want, s)
        return None

    def tag(self, case, res):
        a = case.args
        t = ["round trip" if case.op == SER else "prefixes"]
        rds = a[4:]
        if not rds:
            t.append("no rdata")
        if len(rds) > 254:
            t.append("many rdatas")
        if len(rds) > 4096:
            t.append("more than 4096 rdatas")
        if sum(map(len, rds)) + 2 * len(rds) > 65535:
            t.append("more than 65535 octets" if case.op == SER else "long prefixes")
        if any(len(x) > 30000 for x in rds):
            t.append("long rdata")
        if b"" in rds:
            t.append("empty rdata")
        if len(a[0]) == 255:
            t.append("255 octet name")
        return t


CHECK = C()
