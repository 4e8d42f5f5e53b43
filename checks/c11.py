from .common import *
from .c10 import edns_packet
import re

DEFINITE = re.compile("###")


def norm(s):
    return "\n".join(x.rstrip(" ") for x in s.split("\n"))


def texts_of(m):
    try:
        return D.message_text(m)
    except Bad:
        return None


class C(Check):
    prop = "C11"
    batch, quick, thorough = 500, 48, 2400
    fuzz = 8
    technique = "online comparison of rendered text with a reference renderer"
    rule = ("accepted messages and hand-made RRsets of every type and section; the text of the message, of each section, RRset "
            "and record is compared character by character (blanks at line ends aside) with the reference rendering; "
            "non-trivial: at least one record or question")
    min_tags = ("message", "rrset", "edns", "opcode unknown", "rcode unknown", "opcode known", "rcode known", "question", "authority",
                "flag qr", "flag aa", "flag tc", "flag rd", "flag ra", "flag ad", "flag cd")
    assumptions = ["the reference rendering follows the documented dig-like form"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .55:
                p, _ = G.message(r)
            else:
                p, _ = edns_packet(r)
            b = bytearray(p)
            if r.random() < .5:
                struct.pack_into(">H", b, 2, r.choice((1 << r.randrange(16), 0, 0xffff, r.randrange(65536), r.randrange(16), r.randrange(16) << 11)))
            out.append(Case(PARSE, [bytes(b), num(TEXTS)], tag="message"))
        for i in range(n // 2):
            t = G.any_type(r)
            if t == 41:
                t = 1
            c = G.any_class(r)
            sec = r.randrange(4)
            rds = []
            for _ in range(r.choice((0, 1, 1, 2, 5))):
                rds.append(G.big_rdata(r, t) if r.random() < .005 and not D.class_mismatch(t, c) else
                           G.rdata(r, t) if not D.class_mismatch(t, c) else G.rbytes(r, r.randrange(9)))
            rds = [x for x in rds if len(x) < 65536]
            out.append(Case(RRSETSTR, [num(sec)] + rrset_args(G.name(r), t, c, G.u32(r), rds),
                            ctx=(sec, t, c, rds), tag="rrset"))
        return out

    def from_fuzz(self, op, args):
        if op == RRSETSTR:
            sec, t, c = (int.from_bytes(args[i], "little") for i in (0, 2, 3))
            for x in args[5:]:
                try:
                    D.rdata_text(t, c, x)
                except Bad:
                    return None         # C12
            return Case(op, args, (sec, t, c, list(args[5:])), "rrset")
        return Case(op, args, None, "message")

    def judge(self, case, rd):
        if case.op == RRSETSTR:
            sec, t, c, rds = case.ctx
            nm, ttl = case.args[1], int.from_bytes(case.args[4], "little")
            if sec == 0:
                w = D.rr_text(0, ttl, t, c, nm, None)
                one = w
            else:
                w = "".join(D.rr_text(sec, ttl, t, c, nm, x) for x in rds)
                one = D.rr_text(sec, ttl, t, c, nm, rds[0]) if rds else ""
            s = rd.s()
            if norm(s) != norm(w):
                return "rrset text", "RRset prints as %r, expected %r" % (s, w)
            if rds:
                a, b = rd.s(), rd.s()
                if norm(a) != norm(one):
                    return "record text", "record prints as %r, expected %r" % (a, one)
                if norm(b) != norm(one):
                    return "section text", "section prints as %r, expected %r" % (b, one)
            return None
        m = model(case.args[0])
        g = Parsed(rd)
        if m is None or g.res:
            return None
        hx = case.args[0].hex()
        g.texts(rd)
        want = texts_of(m)
        if want is None:
            return None          # options with an error marker: C10
        if norm(g.text) != norm(want):
            a, b = norm(g.text).split("\n"), norm(want).split("\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return "message text", "line %d is %r, expected %r: %s" % (k + 1, a[k:k + 1], b[k:k + 1], hx)
        for s in range(4):
            w = "".join(D.rr_text(s, *rr) for rr in m.rrs[s])
            if norm(g.sec_text[s]) != norm(w):
                return "section text", "section %d prints as %r, expected %r: %s" % (s, g.sec_text[s], w, hx)
            for rr, x in zip(m.rrs[s], g.rr_text[s]):
                if norm(x) != norm(D.rr_text(s, *rr)):
                    return "record text", "record prints as %r, expected %r: %s" % (x, D.rr_text(s, *rr), hx)
            for rs, x in zip(m.rrsets[s], g.rrset_text[s]):
                w = "".join(D.rr_text(s, rs[0], rs[1], rs[2], rs[3], d) for d in (rs[4] if s else [None]))
                if norm(x) != norm(w):
                    return "rrset text", "RRset prints as %r, expected %r: %s" % (x, w, hx)
        return None

    def tag(self, case, res):
        if case.op == RRSETSTR:
            return ["rrset", "rrset " + D.type_text(case.ctx[1])]
        t = ["message"]
        if int.from_bytes(res[0], "little"):
            return ["refused"]
        m = model(case.args[0])
        if m is None:
            return t
        f = m.flags
        t += ["flag " + n for n, b in (("qr", 15), ("aa", 10), ("tc", 9), ("rd", 8), ("ra", 7), ("ad", 5), ("cd", 4)) if f >> b & 1]
        t.append("opcode known" if (f >> 11) & 15 in D.OPCODES else "opcode unknown")
        t.append("rcode known" if m.rcode in D.RCODES else "rcode unknown")
        if m.edns:
            t.append("edns")
        for i, n in enumerate(("question", "answer", "authority", "additional")):
            if m.rrs[i]:
                t.append(n)
        return t

    def nontrivial(self, case, res):
        return int.from_bytes(res[0], "little") == 0 if case.op == PARSE else True


CHECK = C()
