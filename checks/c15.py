from .common import *
from .c02 import any_name
from .c14 import sp_name


def name_text(r):
    """A text that may or may not be a name."""
    x = r.random()
    if x < .35:
        s = sp_name(r, G.name(r))
        return s if r.random() < .9 or not s.endswith(b".") else s + b"."
    if x < .55:
        return G.mutate_text(r, D.name_text(G.name(r)).encode("latin1"))
    if x < .75:
        # around the limits: label of 62..65 octets, name of 252..258 octets; octets spelled in any way
        lab = []
        tgt = r.choice((63, 64, 65, 66, 250, 253, 254, 255, 256, 257, 258, 300))
        tot = 1
        while tot < tgt:
            n = min(r.choice((63, 63, 63, 62, 64, 1, 20, 40)), max(1, tgt - tot - 1))
            lab.append(G.rtext(r, n).replace(b"\0", b"a"))
            tot += n + 1
        o = b""
        for i, x in enumerate(lab):
            for c in x:
                y = r.random()
                o += b"\\%03d" % c if y < .1 or not 33 <= c <= 126 else b"\\" + bytes([c]) if c in b".\\" or y < .15 and not 48 <= c <= 57 else bytes([c])
            o += b"." if i + 1 < len(lab) or r.random() < .6 else b""
        return o
    if x < .9:
        return b"".join(r.choice((b"a", b"B", b".", b"..", b"\\", b"\\.", b"\\\\", b"\\0", b"\\00", b"\\000", b"\\255", b"\\256", b"\\1a2", b"\\a", b"\\065", b" ",
                                  b"\\ ", b"\t", b'"', b"\xff", b"Z", b"-", b"_", b"@", b"\\@", b"a" * 63, b"b" * 62, b"\\0650", b"\\999", b"\\300"))
                        for _ in range(r.randrange(1, 8)))
    if x < .93:
        return r.choice((b"", b".", b"..", b".a", b"a.", b"a", b"\\", b"\\.", b"\\..", b"a\\", b"a\\.", b"a\\\\", b"a\\\\.", b". ", b" .", b"a..", b"\\0", b"\\00", b"\\000", b"\\000.",
                         b"A.B.C", b"\\065.b", b"\\046.", b"\\092"))
    if x < .96:
        return b"a." * r.choice((126, 127, 128, 129)) + r.choice((b"", b"b"))
    return bytes(c for c in G.rbytes(r, r.randrange(20)) if c)


def lower_unescaped_ok(s, g):
    """g: what was read; the letters a text spells directly are lowered; those
    it spells with an escape may be either."""
    try:
        w = D.text_name(s)
    except Bad:
        return False
    return D.lower(g) == D.lower(w) and len(g) == len(w)


class C(Check):
    prop = "C15"
    batch, quick, thorough = 5000, 80, 6000
    fuzz = 8
    technique = "round-trip and differential monitor of name text"
    rule = ("wire names of every shape printed and read back in both case modes, with and without the final dot; texts that "
            "denote a name, nearly do, or are noise, read and compared with a reference reader of names, octet for octet and "
            "refusal for refusal; non-trivial: distinct name or text")
    min_tags = ("wire", "wire 255", "text read", "text refused", "text read 255", "text read 63", "text refused too long", "text refused escape",
                "text refused empty label")
    assumptions = ["a text without a final dot denotes the same name as with it; the empty text denotes the root"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            if r.random() < .4:
                nm = G.name(r)
                out.append(Case(NAMERT, [nm], tag="wire 255" if len(nm) == 255 else "wire"))
            else:
                out.append(Case(S2N, [name_text(r).replace(b"\0", b""), num(r.randrange(2))]))
        return out

    def judge(self, case, rd):
        b = case.args[0]
        if case.op == NAMERT:
            n, t = rd.n(), rd.s()
            want = D.name_text(b)
            if t != want:
                return "name text", "%s prints as %r, expected %r" % (b.hex(), t, want)
            if n != len(b):
                return "name length", "%s: %d octets reported, the name has %d" % (b.hex(), n, len(b))
            for dot in (("", " without its final dot") if len(want) >= 2 else ("",)):
                for keep, w in ((1, b), (0, D.lower(b))):
                    res, g = rd.n(), rd.b()
                    # lowering concerns letters, and letters print as themselves
                    if res or g != w:
                        return "name round trip", "%s prints as %r, which%s, %s, reads as %s (%d)" % (
                            b.hex(), want, dot, "keeping case" if keep else "not keeping case", g.hex(), res)
            return None
        res = rd.n()
        keep = int.from_bytes(case.args[1], "little")
        try:
            w = D.text_name(b)
        except Bad as e:
            if not res:
                return "name accepted " + str(e), "%r (%s) is read as %s" % (b, e, rd.b().hex())
            return None
        if res:
            return "name refused", "%r is refused (%d); it denotes %s" % (b, res, w.hex())
        g, n, t = rd.b(), rd.n(), rd.s()
        if keep and g != w or not keep and (not lower_unescaped_ok(b, g) or b"\\" not in b and g != D.lower(w)):
            return "name misread", "%r is read as %s, it denotes %s" % (b, g.hex(), w.hex())
        return None

    def tag(self, case, res):
        if case.op == NAMERT:
            return case.tag
        if not int.from_bytes(res[0], "little"):
            n = len(res[1])
            return ["text read"] + (["text read 255"] if n == 255 else []) + (["text read 63"] if n and 63 in [len(x) for x in D.labels(res[1])] else [])
        try:
            D.text_name(case.args[0])
            return "text refused"
        except Bad as e:
            return ["text refused", "text refused " + str(e)]


CHECK = C()
