from .common import *


def any_rdata(r, t):
    """Octets of any kind for a type: well-formed, truncated, corrupted, noise."""
    x = r.random()
    if x > .9:
        nr = G.near(r, t)
        if nr is not None:
            return nr, "nearly well-formed"
    rd = G.rdata(r, t) if t in D.LAYOUT or r.random() < .5 else b""
    if x < .2:
        return rd[:65535], "well-formed"
    if x < .5:
        return rd[:r.randrange(len(rd) + 1)], "truncated"
    if x < .8:
        return G.mutate_rdata(r, rd)[:65535], "corrupted"
    if x < .83:
        return (G.rbytes(r, 200) * 400)[:r.choice((65535, 65534, 40000, 256, 257))], "large"
    return G.rbytes(r, r.choice((0, 1, 2, 3, 4, 5, 8, 20, 40, 300))), "noise"


def any_name(r):
    x = r.random()
    if x < .6:
        return G.name(r)
    if x < .8:
        return G.mutate(r, G.name(r))[:255]
    return G.rbytes(r, r.randrange(256))


class C(Check):
    prop = "C02"
    batch, quick, thorough = 1500, 40, 1600
    fuzz = 8
    technique = "ASan+UBSan on hostile rdata renderings"
    rule = ("rdata of every type, cut, corrupted or random, rendered alone, as an RR, as an RRset and as a section from "
            "exact-size buffers under ASan+UBSan; non-trivial: at least one octet of rdata")
    min_tags = tuple("rdata " + D.type_text(t) for t in D.LAYOUT) + ("truncated", "corrupted", "nearly well-formed", "rrset", "message")
    assumptions = ["ASan/UBSan report every out-of-bounds access and undefined operation they instrument"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            t = r.choice(G.ALLTYPES) if r.random() < .9 else G.any_type(r)
            c = 1 if r.random() < .85 else G.any_class(r)
            rd, fl = any_rdata(r, t)
            tags = [fl, "rdata " + D.type_text(t)]
            x = r.random()
            if x < .7:
                out.append(Case(RD2S, [rd, num(t), num(c)], ctx=("s", 1), tag=tags))
            elif x < .9:
                sec = r.choice((0, 1, 1, 2, 3))
                rds = [rd] + [any_rdata(r, t)[0] for _ in range(r.randrange(3))]
                if r.random() < .05:
                    rds = []
                out.append(Case(PRINT, [num(sec)] + rrset_args(any_name(r), t, c, G.u32(r), rds),
                                ctx=("p", len(rds)), tag=tags + ["rrset"]))
            else:
                out.append(Case(D2S, [any_name(r)], ctx=("d", 1), tag=[fl, "name"]))
        # EDNS options that are not well-formed, in a message
        for i in range(n // 20):
            o, fl = any_rdata(r, 41)
            p = struct.pack(">6H", 1, 0x8180, 0, 0, 0, 1) + b"\0" + struct.pack(">HHIH", 41, 4096, r.choice((0, 0x8000)), len(o)) + o
            out.append(Case(PARSE, [p, num(TEXTS | STREAM)], ctx=("m", 1), tag=["message"]))
        return out

    def from_fuzz(self, op, args):
        return Case(op, args, {RD2S: ("s", 1), PRINT: ("p", len(args) - 5), D2S: ("d", 1)}.get(op, ("m", 1)), "found")

    def judge(self, case, rd):
        kind, k = case.ctx
        strs = []
        if kind == "s":
            strs = [rd.b()]
        elif kind == "d":
            n = rd.n()
            strs = [rd.b()]
            if len(strs[0]) >= 1025:
                return "too-long", "a name needs %d characters" % len(strs[0])
        elif kind == "p":
            strs = [rd.b() for _ in range(6 if k else 2)]
        for s in strs:
            if s == NULL:
                return "null-text", "a render function returned NULL"
        return None

    def nontrivial(self, case, res):
        return len(case.args[0]) > 0


CHECK = C()
