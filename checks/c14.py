import base64, socket
from .common import *


# ---- the same value spelled in different ways
def sp_num(r, v):
    return ("0" * r.choice((0, 0, 0, 1, 3)) + str(v)).encode()


def esc3(c):
    return b"\\%03d" % c


def sp_name(r, nm):
    lab = D.labels(nm)
    if not lab:
        return b"."
    out = []
    for x in lab:
        s = b""
        for c in x:
            if 33 <= c <= 126 and c not in (46, 92):
                s += bytes([c]) if r.random() < .9 else esc3(c)
            elif c in (46, 92) and r.random() < .5:
                s += b"\\" + bytes([c])
            else:
                s += esc3(c)
        out.append(s)
    t = b".".join(out)
    # a final dot may be left out
    return t + (b"." if r.random() < .7 else b"")


def sp_str(r, v, quoted=None):
    """character-string"""
    if quoted is None:
        quoted = r.random() < .6
    if not v:
        quoted = True
    s = b""
    for i, c in enumerate(v):
        if c in (34, 92):
            s += b"\\" + bytes([c]) if r.random() < .7 else esc3(c)
        elif c == 32:
            s += b" " if quoted and r.random() < .8 else esc3(c)
        elif 33 <= c <= 126:
            s += bytes([c]) if r.random() < .93 else esc3(c)
        else:
            s += esc3(c)
    return b'"' + s + b'"' if quoted else s


def sp_hex(r, v):
    return bytes(ord(ch.upper() if r.random() < .5 else ch) for ch in v.hex())


def sp_hexb(r, v):
    s = sp_hex(r, v)
    if r.random() < .3 and len(v) > 1:
        o = b""
        for i in range(0, len(s), 2):
            o += s[i:i + 2] + (ws(r) if r.random() < .2 and i + 2 < len(s) else b"")
        return o
    return s


def sp_b64(r, v):
    s = base64.b64encode(v)
    if r.random() < .3:
        i = r.randrange(len(s) + 1)
        s = s[:i] + (b" " if 0 < i < len(s) else b"") + s[i:]
    return s


def sp_case(r, s):
    return bytes(c ^ 0x20 if (65 <= c <= 90 or 97 <= c <= 122) and r.random() < .4 else c for c in s)


def sp_type(r, t):
    n = D.TYPES.get(t)
    if n is None or r.random() < .2:
        return sp_case(r, b"TYPE%d" % t) if r.random() < .4 else b"TYPE%d" % t
    return sp_case(r, n.encode()) if r.random() < .4 else n.encode()


def sp_ip6(r, v):
    x = r.random()
    if x < .5:
        return D.ip6(v).encode()
    g = struct.unpack(">8H", v)
    if x < .75:
        return ":".join("%04x" % a for a in g).encode()
    if x < .9:
        return ":".join("%X" % a for a in g).encode()
    return ":".join("%x" % a for a in g[:6]).encode() + b":%d.%d.%d.%d" % tuple(v[12:])


def sp_svc(r, v):
    """list of tokens"""
    out, i = [], 0
    while i < len(v):
        k, ln = struct.unpack_from(">HH", v, i)
        x = v[i + 4:i + 4 + ln]
        i += 4 + ln
        key = D.svckey(k).encode()
        if r.random() < .2:
            key = b"key%d" % k
        q = (lambda s: b'"' + s + b'"') if r.random() < .4 else (lambda s: s)
        if k == 2:
            out.append(key)
        elif k == 0:
            out.append(key + b"=" + q(b",".join(r.choice((D.svckey(a).encode(), b"key%d" % a)) for a in struct.unpack(">%dH" % (ln // 2), x))))
        elif k == 3:
            out.append(key + b"=" + q(sp_num(r, struct.unpack(">H", x)[0])))
        elif k == 4:
            out.append(key + b"=" + q(b",".join(socket.inet_ntop(socket.AF_INET, x[j:j + 4]).encode() for j in range(0, ln, 4))))
        elif k == 5:
            out.append(key + b"=" + q(base64.b64encode(x)))
        elif k == 6:
            out.append(key + b"=" + q(b",".join(sp_ip6(r, x[j:j + 16]) for j in range(0, ln, 16))))
        elif k == 1:
            ids, j = [], 0
            while j < ln:
                a = x[j + 1:j + 1 + x[j]]
                j += 1 + x[j]
                ids.append(b"".join(b"\\," if c == 44 else b"\\\\" if c == 92 else bytes([c]) for c in a))
            out.append(key + b"=" + sp_str(r, b",".join(ids)))
        else:
            out.append(key + b"=" + sp_str(r, x))
    return out


def ws(r):
    return r.choice((b" ", b" ", b" ", b"  ", b"\t", b" \t ", b"\n", b"\r\n")) if r.random() < .3 else b" "


def tokens(r, k, v):
    if k == "N":
        return [sp_name(r, v)]
    if k in "124":
        return [sp_num(r, int.from_bytes(v, "big"))]
    if k == "a":
        return [socket.inet_ntop(socket.AF_INET, v).encode()]
    if k == "q":
        return [sp_ip6(r, v)]
    if k == "s":
        return [sp_str(r, v[1:])]
    if k == "S":
        out, i = [], 0
        while i < len(v):
            out.append(sp_str(r, v[i + 1:i + 1 + v[i]]))
            i += 1 + v[i]
        return out
    if k == "x":
        return [sp_hexb(r, v)] if v else []
    if k == "b":
        return [sp_b64(r, v)] if v else []
    if k == "t":
        return [sp_str(r, v, True)] if v else []
    if k == "T":
        return [sp_type(r, int.from_bytes(v, "big"))]
    if k == "m":
        ts = D.bitmap_types(v)
        if r.random() < .5:
            r.shuffle(ts)
        if ts and r.random() < .2:
            ts.append(r.choice(ts))
        return [sp_type(r, t) for t in ts]
    if k == "L":
        return [sp_hex(r, v[1:]) or b"-"]
    if k == "H":
        s = (D.b32(v[1:]) or "0").encode()
        return [sp_case(r, s) if r.random() < .5 else s]
    if k == "6":
        out = [sp_num(r, v[0])]
        if len(v) > 1:
            out.append(sp_ip6(r, v[1:].rjust(16, b"\0")))
        return out
    if k in "eE":
        return [sp_case(r, "-".join("%02x" % c for c in v).encode())]
    if k == "v":
        return sp_svc(r, v)
    raise KeyError(k)


def glue(r, t, toks):
    """Tokens separated by blanks; SvcParams by spaces only."""
    if not toks:
        return b""
    plain = t in (64, 65)
    s = b"" if r.random() < .9 else ws(r)
    for i, x in enumerate(toks):
        if i:
            s += (b" " if r.random() < .8 else b"  ") if plain and i > 1 else ws(r)
        s += x
    return s


def spelled(r):
    """(type, text, wire)"""
    while True:
        if r.random() < .06:
            t = r.choice([x for x in G.OPAQUE])
            rd = G.rbytes(r, r.choice((0, 1, 2, 5, 30, 300)))
            h = sp_hexb(r, rd)
            return t, b"\\#" + ws(r) + sp_num(r, len(rd)) + (ws(r) + h if h else r.choice((b"", b" "))), rd
        t = r.choice(G.STRUCTTYPES)
        fl = G.fields(r, t)
        if r.random() < .0008:
            # few octets of rdata, but many characters of text
            c = r.choice((b",", b"\\", b"\"", b"\0", b"a,"))
            ids = [(c * 255)[:r.randrange(1, 256)] for _ in range(r.choice((100, 180, 250)))]
            v = b"".join(bytes([len(x)]) + x for x in ids)
            t, fl = 64, [("2", b"\0\1"), ("N", b"\0"), ("v", struct.pack(">HH", 1, len(v)) + v)]
        elif sum(len(v) for _, v in fl) > 4000:
            continue
        toks = []
        for k, v in fl:
            toks += tokens(r, k, v)
        return t, glue(r, t, toks), b"".join(v for _, v in fl)


LONG63 = b"a" * 64


def wrap(r, top):
    """A number outside 0..top-1 that narrow arithmetic takes for one inside."""
    return b"%d" % (r.choice((0, 1, 10, 255, r.randrange(1 << 16)) if top > 256 else (0, 1, 2, 9)) % top +
                    r.choice((1, 1, 1, 2, 3, 10)) * (1 << r.choice([b for b in (8, 16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 128) if 1 << b >= top])))


def bad_token(r, k, v):
    """A token list that cannot denote a value of field k."""
    if k in "124":
        top = 1 << (8 * int(k))
        if r.random() < .5:
            return [wrap(r, top)]
        return [r.choice((b"%d" % top, b"%d" % (top + 1), b"%d" % (top * 10), b"%d" % (top + r.randrange(1 << 20)), b"-1", b"+1", b"1x", b"x", b"0x10", b"1.5",
                          b"18446744073709551616", b"18446744073709551617", b"99999999999999999999999999", b"1,"))]
    if k == "a":
        return [r.choice((b"1.2.3", b"1.2.3.256", b"1.2.3.4.5", b"1.2.3.x", b"::1", b"a", b"1.2.3.-4", b"1..3.4", b"1.2.3.4x", b"01.2.3.4444"))]
    if k == "q":
        return [r.choice((b"1.2.3.4", b":::", b"1:2:3:4:5:6:7", b"1:2:3:4:5:6:7:8:9", b"g::", b"::12345", b"1::2::3", b"::1/64", b"fe80::1%eth0"))]
    if k == "N":
        return [r.choice((b"a..b.", b".a.", b"..", LONG63 + b".", b"x." + LONG63, b"a\\256b.", b"a\\25", b"a\\2x5.", b"a.\\999.", b"a\\",
                          (b"b" * 63 + b".") * 4, (b"b" * 63 + b".") * 3 + b"c" * 62 + b".", b"a." * 128, b"\\4"))]
    if k in "sS":
        return [r.choice((b'"' + b"a" * 256 + b'"', b"a" * 256, b'"abc', b'"', b'"a\\256"', b"a\\25", b'"\\', b"\\x41", b'"a\\2"', b'"\\999"', b'"abc\\"',
                          b'"\\300\\"', b"a" * 1000))]
    if k == "x":
        return [r.choice((b"ABC", b"A", b"0", b"GG", b"0G", b"G0", b"1z", b"+1", b"-1", b"0x", b"12 3", b"ab,cd", b"12zz", b"A B"))]
    if k == "t":
        return [r.choice((b"abc", b'"abc', b'abc"', b'"a"b"', b'"a" b"', b'"\\256"', b'"\\1"', b'"a" "b"', b'"\\x"', b'"'))]
    if k == "T":
        if r.random() < .3:
            return [b"TYPE" + wrap(r, 65536)]
        return [r.choice((b"TYPE65536", b"TYPE", b"TYPE-1", b"NOSUCH", b"TYPE1x", b"TYPE99999999999999999999", b"1", b"AA", b"TYPE+1"))]
    if k == "m":
        g = [x.encode() for x in ("A", "NS")]
        g.insert(r.randrange(3), r.choice((b"TYPE" + wrap(r, 65536), b"TYPE65536", b"NOSUCH", b"TYPE", b"TYPE-1", b"1", b"TYPE1x", b"A,", b"TYPE65537", b"AAAAA")))
        return g
    if k == "L":
        return [r.choice((b"ABC", b"a", b"GG", b"0g", b"g0", b"--", b"-1", b"+1", b"ab" * 256, b"1z", b"0x"))]
    if k == "H":
        return [r.choice((b"WW", b"!!", b"vz", b"v" * 500, b"0W", b"w0", b"00-0", b"z0", b"0z0z"))]
    if k == "6":
        if r.random() < .3:
            return [wrap(r, 256), b"::1"]
        return r.choice(([b"129", b"::1"], [b"256", b"::1"], [b"300", b"::1"], [b"-1", b"::1"], [b"64x", b"::1"], [b"64", b"1.2.3.4"], [b"64", b"::g"], [b"65600", b"::"],
                         [b"4294967360", b"::1"], [b"18446744073709551680", b"::1"]))
    if k in "eE":
        n = 6 if k == "e" else 8
        g = ["%02x" % c for c in v]
        return [r.choice(("-".join(g[:-1]), "-".join(g + ["00"]), ":".join(g), "-".join(g)[:-1], "-".join(g[:-1] + ["0g"]), "-".join(g[:-1] + ["g0"]),
                          "".join(g), "-".join(["0x"] + g[1:]), "-".join(g[:-1] + ["+1"]))).encode()]
    if k == "v":
        if r.random() < .2:
            n = wrap(r, 65536)
            return [r.choice((b"port=" + n, b"key" + n + b"=a", b'port="' + n + b'"', b"mandatory=alpn,key" + n))]
        return [r.choice((b"port=65536", b"port=", b"port", b"port=x", b"port=-1", b"port=+1", b"port=80x", b"nokey=1", b"key65535=a", b"key65536=a", b"key=1",
                          b"key-1=a", b"key+7=a", b"key7x=a", b"key0x10=a", b"key0x=a", b"key7.0=a", b"mandatory=key0x10", b"port=0x50", b"no-default-alpn=x", b"alpn", b"alpn=", b'alpn=""', b"alpn=h2,", b"alpn=,h2", b"alpn=h2,,h3",
                          b"alpn=" + b"a" * 256, b'alpn="' + b"b" * 300 + b',h2"', b"ipv4hint=1.2.3", b"ipv4hint=::1", b"ipv4hint=", b"ipv4hint", b"ipv6hint=1.2.3.4",
                          b"ipv6hint=::g", b"ipv6hint=1::2,x", b"ipv4hint=1.2.3.4,5", b"mandatory=nokey", b"mandatory=", b"mandatory", b"mandatory=alpn,bogus", b"ech=", b"ech", b"ech=****", b"ech=!", b'ech="=="', b"ech=-_-_", b"ech=====",
                          b'key9="abc', b'key9="\\256"', b'key9=\\x', b"=5", b"=", b"mandatory=key65535", b"key18446744073709551623=a", b"port=18446744073709551696",
                          b"key9=" + b"a" * 65536, b"alpn=" + b",".join([b"c" * 255] * 256)))]
    raise KeyError(k)


def at_limit(r, over):
    """Text of as much rdata as fits, or of more."""
    t = r.choice([x for x in G.BIGTYPES if x != 41 and D.LAYOUT[x][1][-1] != "m"])
    fl = G.big_fields(r, t, 65535 + (r.choice((1, 1, 2, 17, 400, 5000, 34465)) if over else 0))
    toks = []
    for k, v in fl:
        toks += tokens(r, k, v)
    return t, glue(r, t, toks), b"".join(v for _, v in fl)


def broken(r):
    """(type, text that must be refused, kind)"""
    if r.random() < .008:
        t, s, w = at_limit(r, True)
        return t, s, "too long"
    while True:
        x = r.random()
        if x < .08:
            t = r.choice(G.OPAQUE)
            rd = G.rbytes(r, r.choice((0, 1, 2, 5)))
            h = rd.hex().encode()
            return t, r.choice((b"\\# %d %s" % (len(rd) + 1, h), b"\\# %d %s" % (max(0, len(rd) - 1), h + (b"00" if not rd else b"")), b"\\#", b"\\# ", b"\\# x", b"\\# -1",
                                b"\\# %d %s" % (len(rd) + 65536, h),
                                b"\\# %d %s" % (len(rd) + (r.choice((1, 2, 7)) << r.choice((16, 31, 32, 33, 63, 64, 65))), h), b"\\# %d %s0" % (len(rd), h), b"\\# 1 0g", b"\\# 1 g0", b"\\# 2 001", b"\\# 1 +1", b"\\# 1 0x",
                                b"# 1 00", h, b"", b"\\#%d %s" % (len(rd), h), b"\\# 1", b"\\# 0 00", b"\\# 1 0", b"\\# 18446744073709551617 00", b"1.2.3.4",
                                b"\\# 2 0 001", b"\\# 1x 00", b"\\# \t")), "generic"
        t = r.choice(G.STRUCTTYPES)
        fl = G.fields(r, t)
        if sum(len(v) for _, v in fl) > 3000:
            continue
        if x < .8:
            idx = [i for i, (k, v) in enumerate(fl) if k != "b"]
            if not idx:
                continue
            i = r.choice(idx)
            toks = []
            for j, (k, v) in enumerate(fl):
                if j == i:
                    toks += bad_token(r, k, v)
                    if k in "xtSmv" or r.random() < .2:
                        break
                    if k in "sN" and toks[-1].endswith(b"\\"):
                        break
                    if k == "s" and toks[-1].startswith(b'"') and toks[-1] != b'"' + b"a" * 256 + b'"':
                        break       # an open quote swallows what follows
                else:
                    toks += tokens(r, k, v)
            kind = "bad " + fl[i][0]
            if fl[i][0] == "6" and fl[0][0] == "6" and t == 38 and toks[0] == b"128":
                continue
            return t, (b" " if t in (64, 65) else ws(r)).join(toks), kind
        # surplus
        last = fl[-1][0]
        if last in "xbSmtv" or not fl:
            if last not in "t":
                continue
        toks = []
        for k, v in fl:
            toks += tokens(r, k, v)
        if not toks or (last == "t" and not fl[-1][1]):
            continue
        extra = r.choice((b"x", b"1", b"1.2.3.4", b"junk.", b'"a"', b"-", b"::1", b"#", b"00"))
        return t, (b" ".join(toks) + r.choice((b" ", b"\t", b"  ")) + extra), "surplus " + D.type_text(t)


class C(Check):
    prop = "C14"
    batch, quick, thorough = 2500, 44, 2600
    technique = "differential monitor of the text reader against denotations"
    rule = ("text of every type spelled in many ways (spacing, letter case, escapes, leading zeros, address forms, order of "
            "types) has to read as exactly the rdata it denotes; text with one bad or surplus field has to be refused; the "
            "generic form likewise; non-trivial: distinct text")
    FIELDS = "124aqNsSxtTmL6eEHv"
    min_tags = tuple("good " + D.type_text(t) for t in D.LAYOUT if t != 41) + tuple("bad " + k for k in FIELDS) + \
        ("generic", "good generic", "too long") + tuple("surplus " + D.type_text(t) for t in (1, 28, 15, 6, 33, 108, 51, 38))
    assumptions = ["a text that stops before the last fields, characters outside the base64 alphabet in base64 fields, and left-over "
                   "bits in base32 are accepted by the library's design; SvcParams are separated by spaces; strings know the escapes "
                   "\\\\ \\\" and \\DDD"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            if r.random() < .55:
                t, s, w = spelled(r) if r.random() > .004 else at_limit(r, False)
                out.append(Case(S2RD, [s, num(t), num(1)], ctx=w, tag="good " + (D.type_text(t) if t in D.LAYOUT else "generic")))
            else:
                t, s, k = broken(r)
                out.append(Case(S2RD, [s, num(t), num(1)], ctx=None, tag=k))
        return out

    def judge(self, case, rd):
        t = int.from_bytes(case.args[1], "little")
        res = rd.n()
        if case.ctx is None:
            if not res:
                return "accepts " + case.tag, "%s text %r (%s) is read as %s" % (D.type_text(t), case.args[0][:400], case.tag, rd.b().hex()[:400])
            return None
        if res:
            return "refuses " + case.tag, "%s text %r is refused (%d), it denotes %s" % (D.type_text(t), case.args[0], res, case.ctx.hex())
        g = rd.b()
        if g != case.ctx:
            return "misreads " + case.tag, "%s text %r is read as %s, it denotes %s" % (D.type_text(t), case.args[0], g.hex(), case.ctx.hex())
        return None


CHECK = C()
