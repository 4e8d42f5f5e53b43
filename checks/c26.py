import base64, struct
from .my import *

B32HEX = b"0123456789ABCDEFGHIJKLMNOPQRSTUV"
B64 = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def b32hex(b):
    out, acc, bits = bytearray(), 0, 0
    for x in b:
        acc, bits = (acc << 8 | x), bits + 8
        while bits >= 5:
            bits -= 5
            out.append(B32HEX[acc >> bits & 31])
    if bits:
        out.append(B32HEX[acc << (5 - bits) & 31])
    return bytes(out)


def bits_decode(vals, w):
    acc = bits = 0
    out = bytearray()
    for v in vals:
        acc, bits = (acc << w | v) & 0xffff, bits + w
        if bits >= 8:
            bits -= 8
            out.append(acc >> bits & 255)
    return bytes(out)


def cuts(r, n):
    if r.random() < .3:
        return b""
    return b"".join(struct.pack("<H", c) for c in sorted(r.randrange(0, min(n, 65535) + 1) for _ in range(r.randrange(1, 7))))


class C26(Check):
    prop, driver = "C26", DRIVER
    batch, quick, thorough = 4000, 120, 3000
    technique = "differential and round-trip monitor under ASan+UBSan and MSan"
    rule = ("octet strings of all lengths from 0, cut into pieces anywhere, encoded and decoded in exact-size buffers (base64 in "
            "streams, base32hex in buffers of every size); texts with padding, blanks, foreign characters and high octets decoded; "
            "compared with an independent coder; non-trivial: distinct inputs")
    assumptions = ["a base64 decoder's buffer holds as many octets as the text has characters (one more per piece when the text "
                   "comes in pieces); characters outside the base64 alphabet are skipped; base32 text ends at its first '='"]
    min_tags = ("base64 encode 0", "base64 encode 1", "base64 encode 2", "base64 encode pieces", "base64 decode", "base64 decode noise",
                "base32 encode 0", "base32 encode 1", "base32 encode 2", "base32 encode 3", "base32 encode 4", "base32 encode cut",
                "base32 decode", "base32 decode noise", "base32 decode cut", "base32 refused")
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 4), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            k = r.random()
            b = octets(r)
            if k < .25:
                c = cuts(r, len(b))
                out.append(Case(B64ENC, [b, c], base64.b64encode(b), ["base64 encode %d" % (len(b) % 3), "base64 encode pieces" if c else None]))
            elif k < .5:
                t = bytearray(base64.b64encode(b))
                noise = r.random() < .6
                if noise:
                    for _ in range(r.randrange(0, 8)):
                        i = r.randrange(len(t) + 1)
                        x = r.choice((r.randrange(256), r.randrange(32, 127), 0x3d, 0x20, 43 + 80, 42, 0x80, 0xff, 0))
                        if r.random() < .6:
                            t[i:i] = bytes([x])
                        elif i < len(t):
                            t[i] = x
                    if r.random() < .2:
                        t = bytearray(r.randbytes(len(t)))
                t = bytes(t)
                want = bits_decode([B64.index(x) for x in t if x in B64], 6)
                if not noise and want != b:
                    raise AssertionError
                out.append(Case(B64DEC, [t, cuts(r, len(t))], want, "base64 decode noise" if noise else "base64 decode"))
            elif k < .75:
                t = b32hex(b)
                size = len(t) if r.random() < .6 else r.randrange(0, len(t) + 9)
                out.append(Case(B32ENC, [b, num(size)], t[:size], ["base32 encode %d" % (len(b) % 5), "base32 encode cut" if size < len(t) else None]))
            else:
                t = bytearray(b32hex(b))
                tag = "base32 decode"
                if r.random() < .3:
                    t = bytearray(bytes(t).lower() if r.random() < .5 else bytes(x ^ 0x20 if r.random() < .5 and chr(x).isalpha() else x for x in t))
                if r.random() < .3:
                    t += b"=" * r.randrange(1, 7)
                if r.random() < .3:
                    tag = "base32 decode noise"
                    for _ in range(r.randrange(1, 4)):
                        if t:
                            t[r.randrange(len(t))] = r.choice((r.randrange(256), ord("W"), ord("w"), ord("/"), ord(":"), ord("@"), ord("`"), 0x80, 0xff, 0))
                t = bytes(t)
                vals, bad, pad = [], False, False
                for i, x in enumerate(t):
                    u = bytes([x]).upper()
                    if x == 0x3d:
                        pad = True
                    elif u in B32HEX and x < 128:
                        if not pad:
                            vals.append(B32HEX.index(u))
                    else:
                        bad = i
                        break
                    bad = None
                if not t:
                    bad = None
                full = bits_decode(vals, 5)
                size = r.choice((len(full), len(t), len(full) + 1)) if r.random() < .6 else r.randrange(0, len(full) + 9)
                if bad is not None and size <= len(full):
                    size = len(t) + 8       # a full buffer ends decoding: the bad character need not be looked at
                if bad is None and size < len(full):
                    tag = "base32 decode cut"
                if bad is not None:
                    tag = "base32 refused"
                out.append(Case(B32DEC, [t, num(size)], None if bad is not None else full[:size], tag))
        return out

    def tag(self, c, f):
        return [t for t in c.tag if t] if isinstance(c.tag, list) else c.tag

    def judge(self, c, rd):
        if c.op in (B64ENC, B64DEC):
            e = rd.n()
            if e:
                return ("base64 count", "the number of octets reported is %d" % rd.n())
            got = rd.b()
        else:
            k = rd.n()
            got = rd.b()
            if c.ctx is None:
                return None if k == 2 ** 64 - 1 else ("base32 accepted", "%r was decoded" % c.args[0][:80])
            if k != len(c.ctx):
                return ("base32 count", "count %d, expected %d" % (k if k < 2 ** 63 else k - 2 ** 64, len(c.ctx)))
        if got != c.ctx:
            return ("wrong coding op %d" % c.op, "got %r\nexpected %r\nfor %r" % (got[:200], c.ctx[:200], c.args[0][:200]))


CHECK = C26()
