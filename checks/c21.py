from .common import *

RES = 16


def spell(r, s):
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in s)


def near(r, s):
    """A string close to s."""
    x = r.random()
    if x < .2:
        return s[:r.randrange(len(s) + 1)]
    if x < .4:
        return s + r.choice((" ", "x", "0", "\t", "\n", "-", ".", "S", ","))
    if x < .5:
        return r.choice((" ", "\t", "x", "+", "0")) + s
    if x < .7 and s:
        i = r.randrange(len(s))
        return s[:i] + chr(r.choice(list(range(33, 127)) + [1, 128, 255, 0x40 ^ ord(s[i]) & 127 or 65])) + s[i + 1:]
    if x < .8 and s:
        i = r.randrange(len(s))
        return s[:i] + s[i + 1:]
    if x < .9:
        return s.replace("-", "_") if "-" in s else s + "-" + s
    return s + s


def generic_value(s, pre):
    """The value a TYPEn/CLASSn text denotes, or None."""
    if s[:len(pre)].upper() != pre:
        return None
    d = s[len(pre):]
    if not d or any(c not in "0123456789" for c in d):
        return None
    v = int(d)
    return v if v <= 65535 else None


UPTYPES = {v.upper(): k for k, v in D.TYPES.items()}
UPCLASSES = {v: k for k, v in D.CLASSES.items()}
UPRCODES = {v: k for k, v in D.RCODES.items()}


class C(Check):
    prop = "C21"
    batch, quick, thorough = 4000, 40, 3000
    fuzz = 8
    technique = "exhaustive table monitor and differential monitor of mnemonics"
    rule = ("all 65536 values of types, classes, rcodes and opcodes printed, read back, and read from TYPEn and CLASSn "
            "(exhaustive, against tables written from the registries); mnemonics in random letter case, near misses of "
            "mnemonics, generic forms with signs, blanks, zeros and huge numbers; non-trivial: distinct strings and values")
    min_tags = ("all values", "type mnemonic", "class mnemonic", "rcode mnemonic", "refused", "generic type", "generic class", "generic refused")
    assumptions = ["0 stands for 'not a type' and 'not a class', as TYPE0 and CLASS0 are reserved"]

    def cases(self, r, n, bi):
        out = []
        if bi < 32:
            # every value, once per run
            for lo in range(bi * 2048, bi * 2048 + 2048, 256):
                out.append(Case(TABLES, [num(lo), num(lo + 256)], tag="all values"))
        allm = [("type mnemonic", x) for x in D.TYPES.values()] + [("class mnemonic", x) for x in D.CLASSES.values()] + \
            [("rcode mnemonic", x) for x in D.RCODES.values()]
        for i in range(n):
            x = r.random()
            if x < .35:
                tag, s = r.choice(allm)
                s = spell(r, s)
            elif x < .6:
                s, tag = near(r, spell(r, r.choice(allm)[1])), None
            else:
                pre = r.choice(("TYPE", "CLASS", "TYPE", "CLASS", "RCODE", "OPCODE", "TYP", "CLAS", "TYPECLASS"))
                y = r.random()
                if y < .6:
                    v = str(G.u16(r))
                elif y < .7:
                    v = str((r.choice((1, 1, 2, 3, 10)) << r.choice((16, 17, 31, 32, 33, 63, 64, 65))) + G.u16(r))
                elif y < .8:
                    v = str(r.choice((65535, 65536, 65537, 131071, 131072, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) + 1, 10 ** 40)))
                else:
                    v = r.choice(("", " 1", "+1", "-1", "-0", "0x1", "1 ", "1x", "\t1", "\n1", "1.0", "01", "000001", "0000000000000000000001", "1e3", "x", "-65535",
                                  "\v1", "+", "-", "1\n", "18446744073709551617", "-18446744073709551615", "A", "１"))
                tag = None
                s = spell(r, pre) + v
            b = s.encode("latin1", "replace").replace(b"\0", b"")
            out.append(Case(STRTAB, [b], tag=tag))
        return out

    def judge(self, case, rd):
        if case.op == TABLES:
            lo, hi = (int.from_bytes(x, "little") for x in case.args)
            for v in range(lo, hi):
                ts, cs, rs, os_ = [None if b == NULL else b.decode("latin1") for b in (rd.b(), rd.b(), rd.b(), rd.b())]
                trt, crt, rrt, gt, gc = (rd.n() for _ in range(5))
                for what, got, tab in (("type", ts, D.TYPES), ("class", cs, D.CLASSES), ("rcode", rs, D.RCODES), ("opcode", os_, D.OPCODES)):
                    if got != tab.get(v):
                        return "mnemonic of a " + what, "%s %d prints as %r, expected %r" % (what, v, got, tab.get(v))
                for what, s, back in (("type", ts, trt), ("class", cs, crt), ("rcode", rs, rrt)):
                    if s is not None and back != v:
                        return "round trip of a " + what, "%s %d prints as %s, which reads as %d" % (what, v, s, back)
                if gt != v or gc != v:
                    return "generic form", "TYPE%d reads as %d, CLASS%d as %d" % (v, gt, v, gc)
            texts = [rd.b() for _ in range(24)]
            known = texts[:RES]
            if NULL in known or len(set(known)) != RES or any(not t for t in known) or any(t != NULL for t in texts[RES:]):
                return "result texts", "texts of the result codes: %r" % texts
            return None
        b = case.args[0]
        s = b.decode("latin1")
        # letter case in ASCII only
        u = "".join(chr(ord(c) - 32) if "a" <= c <= "z" else c for c in s)
        ty, cl, res, rc = rd.n(), rd.n(), rd.n(), rd.n()
        wt = UPTYPES.get(u)
        if wt is None:
            wt = generic_value(u, "TYPE") or 0
        wc = UPCLASSES.get(u)
        if wc is None:
            wc = generic_value(u, "CLASS") or 0
        if ty != wt:
            return "type from text", "%r reads as type %d, expected %d" % (s, ty, wt)
        if cl != wc:
            return "class from text", "%r reads as class %d, expected %d" % (s, cl, wc)
        if u in UPRCODES:
            if res or rc != UPRCODES[u]:
                return "rcode from text", "%r reads as rcode %d (%d), expected %d" % (s, rc, res, UPRCODES[u])
        elif not res:
            return "rcode accepted", "%r reads as rcode %d" % (s, rc)
        return None

    def tag(self, case, res):
        if case.op == TABLES:
            return case.tag
        ty, cl, rs = [int.from_bytes(x, "little") for x in res[:3]]
        g = case.args[0][:4].upper() == b"TYPE", case.args[0][:5].upper() == b"CLASS"
        t = [case.tag] if case.tag else []
        if g[0] and ty:
            t.append("generic type")
        if g[1] and cl:
            t.append("generic class")
        if any(g) and not ty and not cl:
            t.append("generic refused")
        if not ty and not cl and rs:
            t.append("refused")
        return t


CHECK = C()
