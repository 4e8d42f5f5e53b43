from .hist import *


class C34(Check):
    prop, driver = "C34", DRIVER
    batch, quick, thorough = 500, 120, 2500
    technique = "history monitor against a byte-string model under ASan+UBSan and MSan"
    rule = ("sequences of add, append, extend, reserve-and-fill, advance, clip, reset, string and formatted appends, rstrip, "
            "detach and rebuild over two buffers, and of the same over a vector of structures, with lengths across every growth "
            "boundary; after every step size, write pointer and content are compared with the model; non-trivial: distinct "
            "histories")
    OPS = ("add", "append", "extend", "reserve", "clip", "reset", "add_cstr", "append_cstr", "cterm", "cstr", "fmt", "rstrip",
           "detach", "rebuild", "reinit", "literal", "protobuf append")
    min_tags = OPS + tuple("vec " + x for x in ("add", "append", "extend", "clip", "reset", "detach", "reserve")) + ("over 4096",)
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 5), self.batch, 500000)]

    def length(self, r):
        k = r.random()
        if k < .15:
            return 0
        if k < .6:
            return r.randrange(1, 20)
        if k < .95:
            return max(0, 2 ** r.randrange(1, 9) + r.randrange(-2, 3))
        return r.randrange(10000) if k < .997 else r.choice((32767, 32768, 65535, 65536, 70000))

    def cases(self, r, n, bi):
        return [self.ubuf(r) if r.random() < .65 else self.vec(r) for _ in range(n)]

    def ubuf(self, r):
        hint = r.choice((0, 1, 2, 3, 16, 255))
        p, prog, size = bytearray([hint]), [], [0, 0]
        for _ in range(r.randrange(1, 30)):
            w = r.random() < .4
            o = r.choice((0, 0, 1, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 10, 11, 12, 13, 14, 15, 16)) if r.random() < .8 else r.choice((1, 6, 10, 3))
            p.append(o | w << 7)
            a = ()
            if o == 0:
                a = (r.choice((0, r.randrange(256))),)
                p += bytes(a)
            elif o in (1, 16):
                a = (self.length(r), r.randrange(256))
                p += k32(a[0]) + bytes([a[1]])
            elif o == 3:
                a = (self.length(r), r.randrange(256), r.randrange(2))
                p += k32(a[0]) + bytes(a[1:])
            elif o == 4:
                a = (r.choice((0, r.randrange(600), 2 ** 32 - 1, r.randrange(20))),)
                p += k32(a[0])
            elif o in (6, 7):
                a = (min(255, self.length(r)), r.randrange(256))
                p += bytes(a)
            elif o == 10:
                a = (r.choice((0, 9, 10, 2 ** 32 - 1, r.randrange(2 ** 32))), min(255, self.length(r)))
                p += k32(a[0]) + bytes(a[1:])
            elif o == 11:
                a = (r.choice((0, 0x25, 0x20, 33, r.randrange(128), r.randrange(256))),)
                p += bytes(a)
            elif o == 13:
                a = (min(255, self.length(r)),)
                p += bytes(a)
            elif o == 14:
                a = (r.randrange(256), min(255, self.length(r)))
                p += bytes(a)
            prog.append((o, int(w), a))
        return Case(UBUF, [bytes(p)], prog)

    def vec(self, r):
        p, prog = bytearray([r.choice((0, 1, 2, 7, 255))]), []
        for _ in range(r.randrange(1, 25)):
            o = r.choice((0, 0, 0, 1, 1, 2, 3, 4, 5, 6))
            a = 0
            p.append(o)
            if o in (1, 2, 6):
                a = self.length(r) if r.random() < .9 else 0
                a = min(a, 1100)
                p += k32(a)
            elif o == 3:
                a = r.choice((0, r.randrange(600), 2 ** 32 - 1, r.randrange(20)))
                p += k32(a)
            prog.append((o, a))
        return Case(VEC, [bytes(p)], prog)

    def judge(self, c, rd):
        self._t = set()
        return (self.judge_ubuf if c.op == UBUF else self.judge_vec)(c, rd)

    def judge_ubuf(self, c, rd):
        u = [bytearray(), bytearray()]
        t = self._t
        for step, (o, w, a) in enumerate(c.ctx):
            x, nm = u[w], self.OPS[o]
            where = "step %d (%s): " % (step, nm)
            t.add(nm)
            if o == 0:
                x += bytes(a)
            elif o in (1, 16):
                x += bytes((a[1] + i * 7 + (i >> 8)) & 255 for i in range(a[0]))
            elif o == 2:
                x += u[1 - w]
            elif o == 3:
                if a[2]:
                    x += bytes([a[1]]) * a[0]
            elif o == 4:
                del x[a[0]:]
            elif o == 5:
                x.clear()
            elif o in (6, 7):
                if o == 6 and x and x[-1] == 0:
                    del x[-1]
                x += bytes(33 + (a[1] + i * 5) % 90 for i in range(a[0]))
            elif o == 8:
                if not x or x[-1]:
                    x.append(0)
            elif o == 9:
                if not x or x[-1]:
                    x.append(0)
                if rd.n() != 1:
                    return "cstr pointer", where + "not the buffer's data"
                s = rd.b()
                if s != bytes(x).split(b"\0")[0]:
                    return "cstr", where + "%r, expected %r" % (s, bytes(x))
            elif o == 10:
                if x and x[-1] == 0:
                    del x[-1]
                x += b"<%d|%s|%s>" % (a[0], b"%" * a[1], str(a[0] & 255).ljust(a[1] * 3).encode())
            elif o == 11:
                if x and x[-1] == a[0]:
                    del x[-1]
            elif o == 12:
                n, b = rd.n(), rd.b()
                if (n, b) != (len(x), bytes(x)):
                    return "detach", where + "%d octets %r, expected %d %r" % (n, b[:60], len(x), bytes(x[:60]))
                x.clear()
            elif o == 13:
                if rd.n() != 1:
                    return "destroy", where + "the pointer is not cleared"
                x[:] = bytes([97 + a[0] % 26]) * a[0]
            elif o == 14:
                if [rd.n() for _ in range(3)] != [0, 8 * a[1], 0]:
                    return "reinit", where + "contents differ"
            else:
                x += b"lit\0eral"
            n, by, off, d = rd.n(), rd.n(), rd.n(), rd.b()
            if d != bytes(x):
                return "content after " + nm, where + "%d octets %r, expected %d %r" % (len(d), d[:200], len(x), bytes(x[:200]))
            if not n == by == off == len(x):
                return "size after " + nm, where + "size %d, bytes %d, write offset %d, expected %d" % (n, by, off, len(x))
            if len(x) > 4096:
                t.add("over 4096")
        if rd.n() != 1 or rd.left():
            return "destroy", "a destroyed buffer's pointer is not cleared, or a value differs"

    def judge_vec(self, c, rd):
        v, serial = [], 0
        names = ("add", "append", "extend", "clip", "reset", "detach", "reserve")
        for step, (o, a) in enumerate(c.ctx):
            nm = "vec " + names[o]
            where = "step %d (%s): " % (step, nm)
            self._t.add(nm)
            def elem():
                return rd.n(), rd.b()

            def want(s):
                return s | (~s & 0xffffffff) << 32, bytes((1, 2, s & 255))
            if o == 0:
                v.append(serial)
                serial += 1
            elif o in (1, 2):
                v += range(serial, serial + a)
                serial += a
            elif o == 3:
                del v[a:]
            elif o == 4:
                v = []
            elif o == 5:
                if rd.n() != len(v) or any(elem() != want(s) for s in v):
                    return "vec detach", where + "contents differ"
                v = []
            got = [rd.n() for _ in range(4)]
            frm = len(v) - 5 if step + 1 < len(c.ctx) and len(v) > 5 else 0
            if got != [len(v)] * 3 + [frm]:
                return "size after " + nm, where + "size, bytes and offset %s, expected %d" % (got[:3], len(v))
            if any(elem() != want(s) for s in v[frm:]):
                return "content after " + nm, where + "an element differs"
        if rd.left():
            return "surplus", "surplus answers"

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C34()
