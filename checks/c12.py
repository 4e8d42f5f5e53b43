from .common import *
import re

MARK = re.compile(r"### PARSE ERROR( #\d+)? ###")


def truncated(r):
    """(type, rdata, complete leading fields, kind of the field it ends in)"""
    while True:
        t = r.choice(G.STRUCTTYPES)
        fl = G.fields(r, t)
        cand = [i for i, (k, v) in enumerate(fl) if k in "N24aqsSLH6eETmv" and len(v) > 1]
        if not cand:
            continue
        i = r.choice(cand)
        k, v = fl[i]
        if k in "mv" or k == "S":
            # cut inside the last window, parameter or string
            units, j = [], 0
            while j < len(v):
                ln = 1 + v[j] if k == "S" else 2 + v[j + 1] if k == "m" else 4 + struct.unpack_from(">H", v, j + 2)[0]
                units.append(v[j:j + ln])
                j += ln
            n = r.randrange(len(units))
            u = units[n]
            lo = 2 if k == "m" else 1
            if len(u) <= lo:
                continue
            cut = b"".join(units[:n]) + u[:r.randrange(lo, len(u))]
        else:
            cut = v[:r.randrange(1, len(v))]
            if k in "N" and D.valid_name(cut):
                continue
        return t, b"".join(x for _, x in fl[:i]) + cut, fl[:i], k


def invalid(r):
    """A field which has all its octets but no valid value."""
    x = r.random()
    if x < .5:
        t = r.choice([x for x in G.STRUCTTYPES if "N" in D.LAYOUT[x][1]])
        fl = G.fields(r, t)
        idx = [i for i, (k, v) in enumerate(fl) if k == "N"]
        if not idx:
            return invalid(r)
        i = r.choice(idx)
        bad = r.choice((b"\xc0\x00", b"\xc0\x0c", b"\x40" + b"a" * 64 + b"\0", b"\x03www\xc0\x04", b"\x80\0", b"\xff"))
        return t, b"".join(v for _, v in fl[:i]) + bad, fl[:i], "N"
    if x < .7:
        fl = []
        return 38, bytes([r.choice((129, 136, 255))]) + G.rbytes(r, 16) + b"\0", fl, "6"
    t = r.choice((64, 65))
    fl = [("2", b"\0\1"), ("N", G.name(r))]
    bad = r.choice((struct.pack(">HH", 3, 1) + b"\1", struct.pack(">HH", 3, 3) + b"abc", struct.pack(">HH", 1, 3) + b"\3h2",
                    struct.pack(">HH", 2, 1) + b"x", struct.pack(">HH", 4, 5) + b"abcde", struct.pack(">HH", 6, 15) + bytes(15),
                    struct.pack(">HH", 0, 3) + b"\0\1\0", struct.pack(">HH", 65535, 1) + b"a"))
    return t, b"".join(v for _, v in fl) + bad, fl, "v"


class C(Check):
    prop = "C12"
    batch, quick, thorough = 2500, 40, 2400
    fuzz = 8
    technique = "online comparison of rendered rdata with a reference renderer"
    rule = ("well-formed rdata of every type with boundary and hostile field values, compared with the reference presentation "
            "text; rdata that ends inside a field or holds an invalid one, which has to show the complete fields and then an "
            "error marker; non-trivial: distinct rdata")
    min_tags = tuple("full " + D.type_text(t) for t in D.LAYOUT) + tuple("cut in " + k for k in "N24aqsSLH6eETmv") + \
        ("invalid N", "invalid 6", "invalid v", "generic", "long")
    assumptions = ["the reference rendering follows the RFCs' presentation formats, with the library's documented choices "
                   "(hex upper case in digests, lower case in salts, quoted strings, '0' for an empty NSEC3 hash)"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .65:
                t = r.choice(G.ALLTYPES) if r.random() < .93 else r.choice(G.OPAQUE)
                tag = []
                if r.random() < .01:
                    t = r.choice(G.BIGTYPES + [65280])
                    rd, tag = G.big_rdata(r, t), ["long"]
                else:
                    rd = G.rdata(r, t)
                if len(rd) > 65535:
                    continue
                out.append(Case(RD2S, [rd, num(t), num(1)], ctx=("full", None), tag=tag + [("full " + D.type_text(t)) if t in D.LAYOUT else "generic"]))
            elif x < .9:
                t, rd, pre, k = truncated(r)
                out.append(Case(RD2S, [rd, num(t), num(1)], ctx=("cut", (pre, k)), tag="cut in " + k))
            else:
                t, rd, pre, k = invalid(r)
                out.append(Case(RD2S, [rd, num(t), num(1)], ctx=("cut", (pre, k)), tag="invalid " + k))
        return out

    def from_fuzz(self, op, args):
        if op != RD2S:
            return None
        b, t, c = args[0], int.from_bytes(args[1], "little"), int.from_bytes(args[2], "little")
        if D.layout(t, c) is None:
            return Case(op, args, ("full", None))
        try:
            D.split(t, c, b)
        except Bad as e:
            if not e.kind or t == D.OPT or e.kind == "v":
                return None             # octets behind the last field; C10
            if e.kind == "m":
                m = b[sum(len(v) for _, v in e.fields):]
                while len(m) > 1 and 1 <= m[1] <= 32 and len(m) >= 2 + m[1]:
                    m = m[2 + m[1]:]
                if len(m) < 2 or not 1 <= m[1] <= 32:
                    return None         # not cut inside a window
            return Case(op, args, ("cut", (e.fields, e.kind)))
        return Case(op, args, ("full", None))

    def judge(self, case, rd):
        t, cl = (int.from_bytes(x, "little") for x in case.args[1:3])
        b = case.args[0]
        s = rd.s()
        kind, info = case.ctx
        if kind == "full":
            try:
                w = D.rdata_text(t, cl, b)
            except Bad:
                return None      # options and the like which the model calls malformed
            if s.rstrip(" ") != w.rstrip(" "):
                return "text " + D.type_text(t), "%s rdata %s prints as %r, expected %r" % (D.type_text(t), b.hex(), s, w)
            return None
        pre, k = info
        m = MARK.search(s)
        if not m:
            return "no marker " + k, "%s rdata %s, which ends inside a field or has an invalid one, prints as %r" % (D.type_text(t), b.hex(), s)
        w = " ".join(x for kk, v in pre for x in D.field_tokens(kk, v))
        head = s[:m.start()].rstrip(" ")
        if k in "mvSt":
            good = head == w or head.startswith(w + " ") or not w
        else:
            good = head == w
        if not good:
            return "invented " + k, "%s rdata %s prints as %r; its complete fields are %r" % (D.type_text(t), b.hex(), s, w)
        return None


CHECK = C()
