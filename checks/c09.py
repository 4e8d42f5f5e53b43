from .common import *


def grouped(r):
    """Messages with many records that nearly agree."""
    p = G.Packet(r, r.choice((0, .7, 1.0)))
    base = [G.name(r, 120) for _ in range(r.choice((1, 2, 3)))]
    # near-misses: case, one octet, bit 5 of a non-letter, another length, prefix, suffix
    pool = []
    for b in base:
        pool += [b, b, G.recase(r, b), G.recase(r, b)]
        lab = D.labels(b)
        if lab:
            l2 = list(lab)
            i = r.randrange(len(l2))
            x = bytearray(l2[i])
            j = r.randrange(len(x))
            x[j] = x[j] ^ 0x20 if r.random() < .7 else r.randrange(256)
            l2[i] = bytes(x)
            pool.append(D.mkname(l2))
            pool.append(D.mkname(lab[1:]))
            if len(b) < 200:
                pool.append(D.mkname([b"A"] + lab))
            # a different split into labels of the same octets
            if len(lab) > 1 and len(lab[0]) + len(lab[1]) + 1 <= 63:
                pool.append(D.mkname([lab[0] + bytes([46]) + lab[1]] + lab[2:]))
        # [ and {, @ and `: differ by 0x20 but are no letters
        pool += [D.mkname([b"a[b@"]), D.mkname([b"A{b`"]), D.mkname([b"a{B`"]), D.mkname([b"\xc1z"]), D.mkname([b"\xe1z"])]
    for _ in range(r.choice((0, 1, 2, 4))):
        p.question(r.choice(pool), r.choice((1, 28)), 1)
    for sec in (1, 2, 3):
        types = r.choice(((1,), (1, 2), (16, 99), (1, 2, 15, 16)))
        classes = r.choice(((1,), (1,), (1, 3), (1, 3, 255)))
        for i in range(r.choice((0, 1, 2, 5, 12, 40)) if r.random() < .95 else 300):
            t, c = r.choice(types), r.choice(classes)
            fl = G.rr_fields(r, t, c)
            if sum(len(v) for _, v in fl) > 600:
                continue
            if r.random() < .2 and t == 1 and c == 1:
                fl = [("a", b"\1\1\1\1")]
            p.rr(sec, r.choice(pool), t, c, G.u32(r), fl)
    return p.done(1, 0x8180)


class C(Check):
    prop = "C09"
    batch, quick, thorough = 500, 48, 2400
    fuzz = 8
    technique = "conservation monitor: records against RRsets, reference grouping"
    rule = ("messages with many records whose owner, class or type nearly agree (letter case, single octets, label splits), "
            "duplicates and mixed TTLs; the RRsets reported are compared with an independent grouping; rr/rrset comparison on "
            "pairs; non-trivial: a section with at least two records")
    min_tags = ("several in one RRset", "names differ in case", "several RRsets", "compare same", "compare different")
    assumptions = ["the reference grouping (first appearance, ASCII case folding) is the documented one"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .001:
                p = thousands(r)
            elif x < .6:
                p = grouped(r)
            else:
                p, _ = G.message(r)
            out.append(Case(PARSE, [p, num(0)], tag="message"))
        for i in range(n // 2):
            a = G.name(r)
            b = a if r.random() < .3 else G.recase(r, a)
            if r.random() < .3:
                b = G.name(r)
            elif r.random() < .3 and len(a) > 1:
                x = bytearray(b)
                j = r.randrange(len(x))
                if x[j] > 63 and x[j] ^ 0x20 > 63:
                    x[j] ^= 0x20
                b = bytes(x)
            t = [r.choice((1, 2, 257)), r.choice((1, 3))]
            u = list(t)
            if r.random() < .2:
                u[0] ^= r.choice((3, 256))
            if r.random() < .2:
                u[1] ^= r.choice((2, 256, 0x8000))
            out.append(Case(CMP, [a, num(t[0]), num(t[1]), num(G.u32(r)), b, num(u[0]), num(u[1]), num(G.u32(r))],
                            ctx=(t == u and D.lower(a) == D.lower(b)), tag="compare"))
        return out

    def from_fuzz(self, op, args):
        if op != CMP:
            return Case(op, args, None, "found")
        return Case(op, args, list(args[1:3]) == list(args[5:7]) and D.lower(args[0]) == D.lower(args[4]), "compare")

    def judge(self, case, rd):
        if case.op == CMP:
            r, same = rd.n(), rd.n()
            if bool(r) != case.ctx:
                return "compare", "comparing %s/%s gives %d" % (case.args[0].hex(), case.args[4].hex(), r)
            if not same:
                return "compare-modifies", "comparing changes a name"
            return None
        m = model(case.args[0])
        g = Parsed(rd)
        if m is None or g.res:
            return None
        for s in range(4):
            want = m.rrsets[s]
            got = g.rrsets[s]
            if len(want) != len(got):
                return "number of RRsets", "section %d: %d RRsets instead of %d\n%s" % (s, len(got), len(want), case.args[0].hex())
            for i, (w, h) in enumerate(zip(want, got)):
                for nm, a, b in zip(("TTL", "type", "class", "owner", "rdatas"), w, h):
                    if a != b:
                        return "RRset " + nm, "section %d RRset %d: %s is %r, expected %r\n%s" % (s, i, nm, b, a, case.args[0].hex())
            if sum(len(h[4]) for h in got) != len(g.rrs[s]) and s:
                return "conservation", "section %d: records lost or duplicated" % s
        return None

    def tag(self, case, res):
        if case.op == CMP:
            return "compare same" if case.ctx else "compare different"
        if int.from_bytes(res[0], "little"):
            return "refused"
        g = Parsed(Reader(res))
        t = set()
        for s in (1, 2, 3):
            if any(len(x[4]) > 1 for x in g.rrsets[s]):
                t.add("several in one RRset")
            if len({x[3] for x in g.rrs[s]}) > len({D.lower(x[3]) for x in g.rrs[s]}):
                t.add("names differ in case")
            if len(g.rrsets[s]) > 1:
                t.add("several RRsets")
        return t or "single"

    def nontrivial(self, case, res):
        if case.op == CMP:
            return True
        if int.from_bytes(res[0], "little"):
            return False
        g = Parsed(Reader(res))
        return any(len(x) > 1 for x in g.rrs[1:])


CHECK = C()
