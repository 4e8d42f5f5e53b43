from .common import *


class C(Check):
    prop = "C17"
    batch, quick, thorough = 5000, 80, 6000
    fuzz = 8
    technique = "differential monitor against list arithmetic on labels"
    rule = ("valid names (1 to 127 labels, up to 255 octets, any octet values): count, chop, reverse, reverse twice, subdomain "
            "tests between related and near-miss names, against list arithmetic on the labels; non-trivial: distinct names")
    min_tags = ("count", "chop", "chop root", "reverse", "subdomain yes", "subdomain no", "subdomain equal", "subdomain near miss", "127 labels", "255 octets")
    assumptions = ["a name is not a subdomain of itself; labels are compared octet for octet"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            nm = G.name(r) if r.random() < .96 else G.rtext(r, 0) + D.mkname([G.rtext(r, 1) for _ in range(r.choice((126, 127)))])
            x = r.random()
            if x < .2:
                out.append(Case(COUNT, [nm]))
            elif x < .35:
                out.append(Case(LCHOP, [nm]))
            elif x < .55:
                out.append(Case(REV, [nm]))
            else:
                lab = D.labels(nm)
                y = r.random()
                kind = None
                if y < .4:
                    o = D.mkname(lab[r.randrange(len(lab) + 1):])
                elif y < .5:
                    o, kind = nm, "equal"
                elif y < .8 and lab:
                    # the same octets in another cut, one octet changed, case changed, a label merged
                    suf = [bytearray(z) for z in lab[r.randrange(len(lab)):]]
                    z = r.random()
                    if z < .4:
                        k = r.choice(suf)
                        k[r.randrange(len(k))] ^= r.choice((1, 0x20, 0x80, 255))
                        o = D.mkname([bytes(q) for q in suf])
                    elif z < .6:
                        o = G.recase(r, D.mkname([bytes(q) for q in suf]))
                    elif z < .7 and len(lab) > len(suf):
                        # the octets of the other name, cut into labels otherwise
                        o = D.mkname([bytes(q) for q in suf])
                        pre = G.rtext(r, r.randrange(1, 4)) + bytes([len(suf[0])]) + bytes(suf[0])
                        c = D.mkname([bytes(q) for q in lab[:r.randrange(1, len(lab) - len(suf) + 1)]] + [pre[:63]] + [bytes(q) for q in suf[1:]])
                        if len(c) <= 255:
                            nm = c
                    elif z < .8:
                        q = suf[0]
                        o = D.mkname([bytes(q[r.randrange(len(q)):] or b"x")] + [bytes(q) for q in suf[1:]])
                    else:
                        # a label whose content looks like the other name's wire form
                        w = D.mkname([bytes(q) for q in suf])[:-1][:62]
                        nm = D.mkname([b"x" + w])
                        o = D.mkname([bytes(q) for q in suf])
                        if len(o) > 255:
                            o = b"\0"
                    kind = "near miss"
                elif y < .9:
                    # longer than the first
                    o = nm
                    add = b"\x01a" * r.randrange(1, 3)
                    if len(nm) + len(add) <= 255:
                        o = add + nm
                else:
                    o = G.name(r)
                out.append(Case(ISSUB, [nm, o], tag=kind))
        return out

    def judge(self, case, rd):
        b = case.args[0]
        lab = D.labels(b)
        res = rd.n()
        if case.op == COUNT:
            if res or rd.n() != len(lab):
                return "count", "%s: %d labels counted, it has %d" % (b.hex(), int.from_bytes(rd.f[1], "little"), len(lab))
        elif case.op == LCHOP:
            want = D.mkname(lab[1:])
            if res:
                return "chop refused", "%s cannot be chopped (%d)" % (b.hex(), res)
            at, ln, same = rd.n(), rd.n(), rd.n()
            if b[at:at + ln] != want or not same:
                return "chop", "%s chopped gives octets %d+%d, expected %s%s" % (b.hex(), at, ln, want.hex(), "" if same else "; the argument is changed")
        elif case.op == REV:
            want = D.reverse(b)
            if res:
                return "reverse refused", "%s cannot be reversed (%d)" % (b.hex(), res)
            g = rd.b()
            if g != want:
                return "reverse", "%s reversed gives %s" % (b.hex(), g.hex())
        else:
            want = D.is_subdomain(b, case.args[1])
            if res:
                return "subdomain refused", "%s vs %s is refused" % (b.hex(), case.args[1].hex())
            if rd.n() != want:
                return "subdomain", "%s is%s a subdomain of %s" % (b.hex(), "" if want else " not", case.args[1].hex())
        return None

    def tag(self, case, res):
        b = case.args[0]
        t = []
        if case.op == ISSUB:
            t.append("subdomain yes" if int.from_bytes(res[1], "little") else "subdomain no")
            if case.tag:
                t.append("subdomain " + case.tag)
        else:
            t.append({COUNT: "count", LCHOP: "chop", REV: "reverse"}[case.op])
            if case.op == LCHOP and b == b"\0":
                t.append("chop root")
        if len(b) == 255:
            t.append("255 octets")
        if len(D.labels(b)) == 127:
            t.append("127 labels")
        return t


CHECK = C()
