from .common import *

NAMED = [t for t in G.STRUCTTYPES if "N" in D.LAYOUT[t][1]]


class C(Check):
    prop = "C18"
    batch, quick, thorough = 3000, 64, 4000
    fuzz = 8
    technique = "differential monitor against the canonical form"
    rule = ("names, rdata of every type and class, and RRsets, rich in upper-case letters inside and outside of names, downcased "
            "and compared with the canonical form of RFC 4034 6.2 (as updated by RFC 6840), octet for octet; cut and mutated "
            "rdata has to keep its length and stay within bounds; non-trivial: some octet changes or must not")
    min_tags = tuple("rdata " + D.type_text(t) for t in D.LAYOUT) + ("name", "rrset", "rdata opaque", "rdata foreign", "malformed refused", "malformed kept", "changed", "unchanged")
    assumptions = ["the list of types is RFC 4034 6.2 as updated by RFC 6840 5.1, which keeps NSEC (and here RRSIG's) names as they are"]

    def up(self, r, b):
        return bytes(c & 0xdf if 97 <= c <= 122 and r.random() < .6 else c for c in b)

    def rd(self, r, t, tries=8):
        if t not in D.LAYOUT:
            return self.up(r, G.rtext(r, r.randrange(40)))
        if r.random() < .003 and t in G.BIGTYPES and "N" not in D.LAYOUT[t][1]:
            return G.big_rdata(r, t)
        fl = G.fields(r, t)
        return b"".join(self.up(r, v) if k == "N" else v for k, v in fl)

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .12:
                out.append(Case(DOWNNAME, [self.up(r, G.name(r))], tag="name"))
            elif x < .65:
                t = r.choice(NAMED) if r.random() < .7 else G.any_type(r) if r.random() < .8 else r.choice(list(D.LAYOUT))
                c = 1 if r.random() < .9 else G.any_class(r)
                v = self.rd(r, t)
                if len(v) > 65535:
                    continue
                k = "rdata " + D.type_text(t) if D.layout(t, c) is not None else "rdata foreign" if t in D.LAYOUT else "rdata opaque"
                out.append(Case(DOWNRDATA, [v, num(t), num(c)], ctx=D.downcase_rdata(t, c, v), tag=k))
            elif x < .85:
                t = r.choice(NAMED)
                v = G.mutate_rdata(r, self.rd(r, t))[:2000]
                out.append(Case(DOWNRDATA, [v, num(t), num(1)], ctx=None, tag="malformed"))
            else:
                t = r.choice(NAMED) if r.random() < .8 else G.any_type(r)
                c = 1 if r.random() < .9 else G.any_class(r)
                out.append(Case(DOWNRRSET, rrset_args(self.up(r, G.name(r)), t, c, G.u32(r), [self.rd(r, t)[:3000] for _ in range(r.randrange(4))]), tag="rrset"))
        return out

    def from_fuzz(self, op, args):
        if op == DOWNRDATA:
            t, c = int.from_bytes(args[1], "little"), int.from_bytes(args[2], "little")
            try:
                return Case(op, args, D.downcase_rdata(t, c, args[0]), "rdata")
            except Bad:
                return Case(op, args, None, "malformed")
        return Case(op, args, None, "name" if op == DOWNNAME else "rrset")

    def judge(self, case, rd):
        a = case.args
        if case.op == DOWNNAME:
            g = rd.b()
            if g != D.lower(a[0]) or not rd.n():
                return "name", "%s becomes %s" % (a[0].hex(), g.hex())
            return None
        t = int.from_bytes(a[1], "little")
        c = int.from_bytes(a[2], "little")
        res = rd.n()
        if case.op == DOWNRDATA:
            ln, g = rd.n(), rd.b()
            if ln != len(a[0]):
                return "length changes " + D.type_text(t), "%s: length %d becomes %d" % (D.type_text(t), len(a[0]), ln)
            if case.ctx is None:
                if D.lower(g) != D.lower(a[0]):
                    return "other octets change", "%s rdata %s becomes %s" % (D.type_text(t), a[0].hex(), g.hex())
                return None
            if res:
                return "refused " + D.type_text(t), "%s rdata %s is refused (%d)" % (D.type_text(t), a[0].hex(), res)
            if g != case.ctx:
                return "rdata " + D.type_text(t), "%s/%d rdata %s becomes %s, canonical is %s" % (D.type_text(t), c, a[0].hex(), g.hex(), case.ctx.hex())
            return None
        s = read_rrset(rd)
        try:
            want = [D.downcase_rdata(t, c, x) for x in a[4:]]
        except Bad:
            return None         # cut by the generator
        if res:
            return "rrset refused", "an RRset of type %s is refused (%d)" % (D.type_text(t), res)
        if s[:3] != [int.from_bytes(a[3], "little"), t, c] or s[3] != D.lower(a[0]) or s[4] != want:
            return "rrset", "RRset %s %s %r becomes %r" % (a[0].hex(), D.type_text(t), [x.hex() for x in a[4:]], s)
        return None

    def tag(self, case, res):
        if case.tag == "malformed":
            return "malformed refused" if int.from_bytes(res[0], "little") else "malformed kept"
        if case.op == DOWNRDATA:
            return [case.tag, "changed" if res[2] != case.args[0] else "unchanged"]
        return case.tag


CHECK = C()
