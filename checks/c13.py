from .common import *
from .c03 import CHECK as TXT
from .c14 import spelled


def canonical(t, c, b):
    """Rdata which its text determines."""
    if t not in D.LAYOUT:
        return True
    if t == D.OPT or D.class_mismatch(t, c):
        return False
    try:
        f = D.split(t, c, b)
        D.rdata_text(t, c, b)
    except Bad:
        return False
    kinds = [k for k, _ in f]
    lay = D.LAYOUT[t][1]
    want = [k for k in lay if k not in "xbtSmvo"]
    if [k for k in kinds if k in want] != want and "S" not in lay:
        return False                    # ends before its last field
    if "S" in lay and kinds[:lay.index("S")] != list(lay[:lay.index("S")]):
        return False
    for k, v in f:
        if k == "m" and v != D.mkbitmap(D.bitmap_types(v)):
            return False
        if k == "6" and (v[0] > 128 or len(v) > 1 and (128 - v[0]) % 8 and v[1] >> (8 - v[0] % 8)):
            return False
        if k == "v" and not svc_canonical(v):
            return False
    if lay == "6N" and (f[0][1][0] == 0) != (len(f) == 1):
        return False
    return True


def svc_canonical(v):
    i = 0
    while i < len(v):
        k, ln = struct.unpack_from(">HH", v, i)
        if k == 1:
            j = i + 4
            while j < i + 4 + ln:
                if not v[j]:
                    return False        # no text for an empty id
                j += 1 + v[j]
        i += 4 + ln
    return True


class C(Check):
    prop = "C13"
    batch, quick, thorough = 1500, 44, 2600
    fuzz = 8
    technique = "round-trip monitor wire-text-wire"
    rule = ("well-formed rdata of every type and of unknown types: wire -> text -> wire -> text has to be the identity; texts "
            "(spelled variously, or mutated) that are read: re-rendered and re-read they have to give the same octets; "
            "non-trivial: distinct rdata or text")
    min_tags = tuple("wire " + D.type_text(t) for t in D.LAYOUT if t != 41) + \
        tuple("text " + D.type_text(t) + " read" for t in D.LAYOUT if t != 41) + ("wire generic", "text generic read", "long")
    assumptions = ["well-formed rdata is complete and canonical: type bitmaps without empty windows, no empty SvcParam lists, "
                   "A6 with prefix length 0 without a name; OPT has no text form that can be read"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .6:
                t = r.choice(G.STRUCTTYPES) if r.random() < .92 else r.choice(G.OPAQUE)
                c = 1 if t not in D.LAYOUT or D.LAYOUT[t][0] else r.choice((1, 1, 3, 255, 77))
                tag = []
                if r.random() < .013:
                    t, c = r.choice([t for t in G.BIGTYPES if t != 41] + [65280] * 6), 1
                    rd, tag = G.big_rdata(r, t), ["long"]
                else:
                    rd = G.rdata(r, t)
                if len(rd) > 65535:
                    continue
                out.append(Case(RTRIP, [rd, num(t), num(c)], tag=tag + ["wire " + D.type_text(t) if t in D.LAYOUT else "wire generic"]))
            elif x < .8:
                t, s, w = spelled(r)
                out.append(Case(S2RD, [s, num(t), num(1)], tag="text " + D.type_text(t) if t in D.LAYOUT else "text generic"))
            else:
                out += [c for c in TXT.cases(r, 1, 0) if c.op == S2RD]
        return out

    def from_fuzz(self, op, args):
        if op == S2RD:
            return Case(op, args, tag="fuzz text")
        if op == RTRIP and canonical(int.from_bytes(args[1], "little"), int.from_bytes(args[2], "little"), args[0]):
            return Case(op, args, tag="fuzz wire")
        return None

    def judge(self, case, rd):
        t, c = int.from_bytes(case.args[1], "little"), int.from_bytes(case.args[2], "little")
        if case.op == RTRIP:
            s, res = rd.s(), rd.n()
            w = case.args[0]
            if res:
                return "text refused " + D.type_text(t), "%s rdata %s prints as %r, which is refused (%d)" % (D.type_text(t), w.hex(), s, res)
            g, s2 = rd.b(), rd.s()
            if g != w:
                return "wire changes " + D.type_text(t), "%s rdata %s prints as %r, which reads as %s" % (D.type_text(t), w.hex(), s, g.hex())
            if s2 != s:
                return "text changes " + D.type_text(t), "%r is printed again as %r" % (s, s2)
            return None
        res = rd.n()
        if res or D.class_mismatch(t, c):
            return None
        a, s, res2 = rd.b(), rd.s(), rd.n()
        if res2:
            return "text not stable " + D.type_text(t), "%s text %r reads as %s, printed as %r, which is refused (%d)" % (
                D.type_text(t), case.args[0], a.hex(), s, res2)
        b = rd.b()
        if a != b:
            return "octets not stable " + D.type_text(t), "%s text %r reads as %s, printed as %r, which reads as %s" % (
                D.type_text(t), case.args[0], a.hex(), s, b.hex())
        return None

    def tag(self, case, res):
        if case.op == RTRIP:
            return case.tag
        ok = not int.from_bytes(res[0], "little")
        return case.tag + (" read" if ok else " refused")


CHECK = C()
