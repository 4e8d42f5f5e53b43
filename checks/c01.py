from .common import *


class C(Check):
    prop = "C01"
    batch, quick, thorough = 700, 48, 2500
    fuzz = 8
    technique = "ASan+UBSan on hostile packets through every consumer"
    rule = ("a packet is generated from a message grammar (compression, all record types), corrupted structurally, or "
            "composed of pointers and noise, put in an exact-size buffer under ASan+UBSan, parsed and walked by every "
            "consumer; non-trivial: at least a header long and distinct")
    min_tags = ("well-formed accepted", "mutated accepted", "mutated refused", "pointer-soup refused", "one-record accepted")
    assumptions = ["ASan/UBSan report every out-of-bounds access and undefined operation they instrument",
                   "objects given to the consumers are those the parser produced"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            p, fl = hostile_packet(r)
            out.append(Case(PARSE, [p, num(TEXTS | WALK)], tag=fl))
        if bi < 8:
            out += self.big(r, bi)
        return out

    def big(self, r, bi):
        """Packets around the largest size."""
        h = struct.pack(">6H", 7, 0, 0, 65535, 0, 0)
        o = []
        if bi == 0:
            o.append(h + b"".join(b"\0" + struct.pack(">HHIH", 1, 1, i, 0) for i in range(4000)))
        nm = G.name(r, 255)
        body = nm + struct.pack(">HHIH", 16, 1, 1, 10) + b"\x09abcdefghi"
        for t in r.sample(sorted(D.LAYOUT), 6) + [46, 64]:
            for ln in (65535, 65000, 65400):
                rd = {46: struct.pack(">HBBIIIH", 1, 5, 2, 3, 4, 5, 6) + b"\xc0\x0c",
                      64: b"\0\1\0", 65: b"\0\1\xc0\x0c", 24: struct.pack(">HBBIIIH", 1, 5, 2, 3, 4, 5, 6) + b"\xc0\x0c"}.get(t, b"")
                rest = ln - len(rd)
                if t in (64, 65) and rest > 4:
                    rd += struct.pack(">HH", r.choice((7, 1, 5, 6, 4)), rest - 4) + G.rbytes(r, rest - 4)
                elif t in (64, 65):
                    pass
                elif t in (16, 99):
                    rd = (b"\xff" + b"x" * 255) * (rest // 256) + bytes([(rest % 256 - 1) & 255]) + b"y" * ((rest % 256 - 1) & 255)
                    rd = rd[:ln]
                else:
                    rd += G.rbytes(r, rest)
                o.append(h + body[:0] + nm + struct.pack(">HHIH", t, 1, 1, ln) + rd)
        return [Case(PARSE, [p, num(TEXTS | WALK)], tag="big") for p in o]

    def judge(self, case, rd):
        res = rd.n()
        return None

    def tag(self, case, res):
        return "%s %s" % (case.tag, "refused" if int.from_bytes(res[0], "little") else "accepted")

    def nontrivial(self, case, res):
        return len(case.args[0]) >= 12


CHECK = C()
