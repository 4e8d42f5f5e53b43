from .common import *


class C(Check):
    prop = "C03"
    batch, quick, thorough = 2500, 28, 1400
    fuzz = 8
    extra_kinds = ("msan",)
    technique = "ASan+UBSan and MSan on hostile text"
    rule = ("presentation text of every type, mutated, cut, spliced, or random, read as rdata, name and mnemonic from "
            "exact-size NUL-terminated buffers under ASan+UBSan and again under MSan (no result may depend on "
            "uninitialised memory); non-trivial: non-empty text")
    min_tags = tuple("text " + D.type_text(t) for t in D.LAYOUT) + ("name", "mnemonic", "generic", "noise")
    assumptions = ["ASan/UBSan/MSan report every violation they instrument; libc functions are covered by their interceptors"]

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", q // 2, self.batch, 100000)]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .7:
                t = r.choice(G.ALLTYPES)
                c = 1 if r.random() < .9 else G.any_class(r)
                s = text_for(r, t, c)
                y = r.random()
                if y < .7:
                    s = G.mutate_text(r, s)
                elif y < .8:
                    s = s[:r.randrange(len(s) + 1)]
                elif y < .85:
                    s = text_for(r, r.choice(G.ALLTYPES), 1)
                out.append(Case(S2RD, [s.replace(b"\0", b""), num(t), num(c)], tag="text " + D.type_text(t)))
            elif x < .76:
                t = r.choice(G.OPAQUE)
                h = G.rbytes(r, r.randrange(12)).hex().encode()
                s = r.choice((b"\\# %d " % (len(h) // 2) + h, b"\\#", b"\\# ", b"\\#\t", b"\\# \n", b"\\# 1", b"\\# 3 01 02 0", b"\\# 70000 00",
                              b"\\# 99999999999999999999", b"\\# 65536", b"\\#  0 ", b"", b"\\", b"\\# 1 zz", b"\\# 2 0g01"))
                if r.random() < .5:
                    s = G.mutate_text(r, s)
                out.append(Case(S2RD, [s, num(t), num(1)], tag="generic"))
            elif x < .9:
                s = D.name_text(G.name(r)).encode("latin1")
                if r.random() < .7:
                    s = G.mutate_text(r, s)
                if r.random() < .2:
                    s = s[:r.randrange(len(s) + 1)]
                out.append(Case(S2N, [s, num(r.randrange(2))], tag="name"))
            elif x < .95:
                s = r.choice(list(D.TYPES.values()) + ["TYPE65536", "TYPE", "CLASS", "CLASS1", "type1", "TYPE-1", "TYPE 1", "RCODE1",
                                                       "TYPE99999999999999999999", "", "NXDOMAIN", "IN"]).encode()
                if r.random() < .5:
                    s = G.mutate_text(r, s)
                out.append(Case(STRTAB, [s], tag="mnemonic"))
            else:
                s = bytes(c for c in G.rtext(r, r.randrange(60)) if c)
                if r.random() < .5:
                    out.append(Case(S2RD, [s, num(r.choice(G.ALLTYPES)), num(1)], tag="noise"))
                else:
                    out.append(Case(S2N, [s, num(0)], tag="noise"))
        return out

    def judge(self, case, rd):
        return None

    def nontrivial(self, case, res):
        return len(case.args[0]) > 0


CHECK = C()
