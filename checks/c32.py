from .my import *

TABLE = []
for i in range(256):
    c = i
    for _ in range(8):
        c = c >> 1 ^ (0x82f63b78 if c & 1 else 0)
    TABLE.append(c)


def crc32c(b):
    c = 0xffffffff
    for x in b:
        c = TABLE[(c ^ x) & 255] ^ c >> 8
    return c ^ 0xffffffff


assert crc32c(b"123456789") == 0xe3069283


class C32(Check):
    prop, driver = "C32", DRIVER
    batch, quick, thorough = 3000, 120, 3000
    technique = "differential monitor under ASan+UBSan (alignment included) and MSan"
    rule = ("octet strings of all lengths from 0 to 300 and some up to 70000, all 16 alignments, ending where their heap block "
            "ends, through the table, instruction and dispatching implementations, compared with a bitwise definition; "
            "non-trivial: distinct (data, alignment)")
    min_tags = ("length 0",) + tuple("tail %d" % i for i in range(8)) + tuple("align %d" % i for i in range(8)) + ("long", "instruction")
    extra_kinds = ("msan", "plain")
    assumptions = ["the instruction implementation is watched where the processor has it (counted as 'instruction')"]

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(1, q // 5), self.batch, 500000), ("plain", max(1, q // 10), self.batch, 700000)]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            k = r.random()
            l = r.randrange(0, 34) if k < .6 else r.randrange(0, 300) if k < .99 else r.randrange(0, 5000)
            b = octets(r, l)
            if i == 0 and bi % 8 == 0:
                b = r.randbytes(r.randrange(30000, 70000))
            o = r.randrange(16)
            out.append(Case(CRC, [b, num(o)], crc32c(b), ["length 0" if not b else None, "tail %d" % (len(b) % 8), "align %d" % (o % 8),
                                                          "long" if len(b) > 1000 else None]))
        return out

    def tag(self, c, f):
        return [t for t in c.tag if t] + (["instruction"] if f[3][0] else [])

    def judge(self, c, rd):
        for w in ("dispatching", "table", "instruction"):
            v = rd.n()
            if v != c.ctx:
                return (w, "%08x, expected %08x for %d octets at alignment %d" % (v, c.ctx, len(c.args[0]), c.args[1][0]))
            if w == "instruction":
                rd.n()
        return None if rd.n() else ("data changed", "the data was changed")


CHECK = C32()
