from .my import *


class C38(Check):
    prop, driver = "C38", DRIVER
    batch, quick, thorough = 6000, 60, 3000
    technique = "differential monitor against reference definitions, with scripted read() results, under ASan+UBSan and MSan"
    rule = ("hex strings, valid and with each kind of error at each place; replacements with overlapping, adjacent, empty, absent "
            "and growing patterns; printing of every octet; reads cut into pieces of any size with interruptions, errors and ends "
            "of file at any place; environment numbers in three bases with garbage; non-trivial: distinct calls")
    min_tags = ("hex", "hex refused", "replace", "replace none", "replace empty", "overlap", "print", "read", "read interrupted",
                "read error", "read end", "number", "number refused", "number unset")
    assumptions = ["empty, signed and overflowing environment numbers are not judged; a backslash is printed as it is"]
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 5), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            k = r.random()
            if k < .25:
                s = octets(r).hex()
                s = "".join(r.choice((c, c.upper())) for c in s).encode()
                m = r.random()
                if m < .15:
                    s = s[:-1]
                elif m < .5 and s:
                    i = r.randrange(len(s))
                    s = s[:i] + bytes([r.choice((0x2f, 0x3a, 0x40, 0x47, 0x60, 0x67, 0xb0, 0xc1, 0x20, r.randrange(1, 256)))]) + s[i + 1:]
                out.append(Case(HEXDEC, [s], None, "hex"))
            elif k < .5:
                al = r.choice((b"ab", b"a", b"abc", bytes(range(1, 256))))
                w = lambda a, b: bytes(r.choice(al) for _ in range(r.randrange(a, b)))
                old = w(0, 5) if r.random() < .95 else w(60, 70)
                new = w(0, 9) if r.random() < .9 else w(60, 300)
                s = b"".join(r.choice((w(0, 4), old, old, old[:-1], old[1:])) for _ in range(r.randrange(0, 9) if r.random() < .995 else r.choice((300, 3000))))
                out.append(Case(REPLACE, [s, old, new], None, "replace"))
            elif k < .65:
                s = octets(r) if r.random() < .9 else bytes(range(256))
                out.append(Case(PRINTSTR, [s], None, "print"))
            elif k < .85:
                need = r.choice((0, 1, 2, 3, r.randrange(40), r.randrange(600)))
                p, left = bytearray(), need
                if r.random() < .01:
                    need = left = r.choice((4096, 32768, 65535, 65536, 70000))
                    big = r.choice((255, 100))
                    while left > 600:
                        p += bytes((0, big))
                        left -= big
                while left > 0 and (len(p) < 1500 or need > 2000):
                    m = r.random()
                    if m < .75:
                        x = r.choice((1, 1, 2, r.randrange(1, 256), left & 255 or 1))
                        p += bytes((0, x))
                        left -= min(x, left)
                    elif m < .93:
                        p.append(1)
                    elif m < .97:
                        p += bytes((2, r.choice((5, 11, 9, 22, 104))))
                        break
                    elif m < .99:
                        p += bytes((0, 0))
                        break
                    else:
                        break
                p += bytes(r.choice(((), (0, 9), (1,), (2, 5))))
                out.append(Case(READBYTES, [bytes(p), num(need), num(r.choice((0, 4, 4, 5)))], None, "read"))
            else:
                v = r.choice((0, 1, 7, 8, 9, 10, 2 ** 64 - 1, 2 ** 63, r.randrange(2 ** 64), r.randrange(1000)))
                s = r.choice(("%d", "%d", "0x%x", "0X%X", "0%o")) % v
                if r.random() < .35:
                    i = r.randrange(len(s) + 1)
                    s = s[:i] + r.choice("gG .,-+zZ9x8_/:") + s[i:]
                out.append(Case(GETENV, [s.encode(), num(r.random() < .95)], None, "number"))
        return out

    def judge(self, c, rd):
        t = self._t = {c.tag}
        if c.op == HEXDEC:
            s = c.args[0]
            ok = len(s) > 0 and len(s) % 2 == 0 and all(x in b"0123456789abcdefABCDEF" for x in s)
            a, live, raw = rd.n(), rd.n(), rd.b()
            if not ok:
                t.add("hex refused")
            if a != ok:
                return "hex accept", "%r is %s" % (s, "accepted" if a else "refused")
            if live != ok:
                return "hex memory", "%r: %d blocks stay allocated" % (s, live)
            if ok and raw != bytes.fromhex(s.decode()):
                return "hex value", "%r gives %s" % (s, raw.hex())
        elif c.op == REPLACE:
            s, o, nw = c.args
            want = s.replace(o, nw) if o else s
            if not o:
                t.add("replace empty")
            elif o not in s:
                t.add("replace none")
            elif any(s[i:i + len(o)] == o and s[j:j + len(o)] == o for i in range(len(s)) for j in range(i + 1, min(len(s), i + len(o)))):
                t.add("overlap")
            got, live = rd.b(), rd.n()
            if got != want:
                return "replace", "%r with %r for %r gives %r, expected %r" % (s, nw, o, got, want)
            if live != 1:
                return "replace memory", "%d blocks stay allocated besides the result" % (live - 1)
        elif c.op == PRINTSTR:
            want = b'"' + b"".join(b'\\"' if x == 34 else bytes([x]) if 32 <= x < 127 else b"\\x%02x" % x for x in c.args[0]) + b'"'
            got = rd.b()
            if got != want:
                return "print", "%r prints as %r, expected %r" % (c.args[0][:80], got[:300], want[:300])
        elif c.op == READBYTES:
            p, need = c.args[0], int.from_bytes(c.args[1], "little")
            i = got = calls = 0
            ok = True
            while got < need:
                calls += 1
                if i >= len(p):
                    t.add("read end")
                    ok = False
                    break
                if p[i] == 0:
                    if p[i + 1] == 0:
                        t.add("read end")
                        ok = False
                        break
                    got = min(need, got + p[i + 1])
                    i += 2
                elif p[i] == 1:
                    t.add("read interrupted")
                    i += 1
                else:
                    t.add("read error")
                    ok = False
                    break
            a, over, n, b = rd.n(), rd.n(), rd.n(), rd.b()
            want = bytes((k * 7 + 1) & 255 for k in range(got)) + b"\xee" * (need - got)
            if over:
                return "read request", "read() is asked for other octets than the missing ones (%d)" % over
            if a != ok:
                return "read result", "%d octets, script %s: result %d after %d calls, expected %d" % (need, p.hex(), a, n, ok)
            if n != calls:
                return "read calls", "%d octets, script %s: %d calls, expected %d" % (need, p.hex(), n, calls)
            if b != want:
                return "read content", "%d octets, script %s: content differs" % (need, p.hex())
        else:
            s, st = c.args[0].decode(), int.from_bytes(c.args[1], "little")
            a, v = rd.n(), rd.n()
            if not st:
                t.add("number unset")
                if a:
                    return "number unset", "an unset variable gives %d" % v
                return
            import re
            m = re.fullmatch(r"0[xX]([0-9a-fA-F]+)|(0[0-7]*)|([1-9][0-9]*)", s)
            if not m:
                if re.match(r"\s*[-+]", s) or s[:1].isspace():
                    return              # not judged
                t.add("number refused")
                if a:
                    return "number accept", "%r is accepted as %d" % (s, v)
                return
            x = int(m[1], 16) if m[1] else int(m[2], 8) if m[2] else int(m[3])
            if x >= 2 ** 64:
                return
            if not a or v != x:
                return "number value", "%r gives %s" % (s, v if a else "nothing")

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C38()
