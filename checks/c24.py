from .common import *
from .c02 import any_rdata, any_name


class C(Check):
    prop = "C24"
    batch, quick, thorough = 700, 64, 3000
    fuzz = 8
    technique = "online comparison of stream output with string output"
    rule = ("parsed messages of every kind (well-formed and mutated), and constructed RRsets with any names and rdata, printed to "
            "a memory stream and rendered as strings, at the four levels; every pair has to be equal byte for byte; "
            "non-trivial: distinct inputs")
    min_tags = ("message", "message with EDNS", "RRset", "RRset without rdata", "question", "long")
    assumptions = []

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .6:
                p, fl = hostile_packet(r) if r.random() < .4 else (G.message(r)[0], "") if r.random() < .999 else (thousands(r), "")
                out.append(Case(PARSE, [p, num(TEXTS | STREAM)], tag="message"))
            else:
                t = G.any_type(r)
                c = G.any_class(r)
                k = r.choice((0, 1, 1, 2, 4))
                # 4 and above are no sections; the functions take any number
                a = rrset_args(any_name(r), t, c, G.u32(r), [any_rdata(r, t)[0][:4000] for _ in range(k)])
                out.append(Case(PRINT, [num(r.randrange(4))] + a, tag="RRset"))
        return out

    def judge(self, case, rd):
        if case.op == PARSE:
            m = Parsed(rd)
            if m.res:
                return None
            m.texts(rd)
            m.streams(rd)
            for what, a, b in (("message", m.text, m.ptext), ("section", m.sec_text, m.psec), ("RRset", m.rrset_text, m.prrset), ("record", m.rr_text, m.prr)):
                if a != b:
                    return "print " + what, "%s: string\n%r\nprinted\n%r" % (what, a, b)
            return None
        f = rd.f[:-2]
        if len(f) == 2:
            pairs = [("RRset", f[0], f[1])]
        else:
            rrset, rr, arr, prr, parr, prrset = f
            pairs = [("RRset", rrset, prrset), ("record", rr, prr), ("section", arr, parr)]
        for what, a, b in pairs:
            if a != b:
                return "print " + what, "%s: string\n%r\nprinted\n%r" % (what, a, b)
        return None

    def tag(self, case, res):
        t = []
        if case.op == PARSE:
            if int.from_bytes(res[0], "little"):
                return "refused"
            t.append("message")
            if int.from_bytes(res[4], "little"):
                t.append("message with EDNS")
            if len(case.args[0]) > 600:
                t.append("long")
            return t
        return ["RRset" + ("" if len(case.args) > 5 else " without rdata")] + (["question"] if not int.from_bytes(case.args[0], "little") else [])


CHECK = C()
