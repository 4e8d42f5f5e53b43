from .my import *

M = 0xffffffff


def rot(x, k):
    return (x << k | x >> 32 - k) & M


def mix(a, b, c):
    a = (a - c & M) ^ rot(c, 4); c = c + b & M
    b = (b - a & M) ^ rot(a, 6); a = a + c & M
    c = (c - b & M) ^ rot(b, 8); b = b + a & M
    a = (a - c & M) ^ rot(c, 16); c = c + b & M
    b = (b - a & M) ^ rot(a, 19); a = a + c & M
    c = (c - b & M) ^ rot(b, 4); b = b + a & M
    return a, b, c


def final(a, b, c):
    c = (c ^ b) - rot(b, 14) & M
    a = (a ^ c) - rot(c, 11) & M
    b = (b ^ a) - rot(a, 25) & M
    c = (c ^ b) - rot(b, 16) & M
    a = (a ^ c) - rot(c, 4) & M
    b = (b ^ a) - rot(a, 14) & M
    c = (c ^ b) - rot(b, 24) & M
    return a, b, c


def lookup3(words, length, pc, pb):
    """Bob Jenkins' lookup3 over 32-bit words (the last one padded with zeros)."""
    a = b = c = 0xdeadbeef + length + pc & M
    c = c + pb & M
    if not words:
        return c, b
    i = 0
    while len(words) - i > 3:
        a, b, c = a + words[i] & M, b + words[i + 1] & M, c + words[i + 2] & M
        a, b, c = mix(a, b, c)
        i += 3
    w = words[i:] + [0] * 3
    a, b, c = final(a + w[0] & M, b + w[1] & M, c + w[2] & M)
    return c, b


def words(k, order):
    k += bytes(-len(k) % 4)
    return [int.from_bytes(k[i:i + 4], order) for i in range(0, len(k), 4)]


class C40(Check):
    prop, driver = "C40", DRIVER
    batch, quick, thorough = 4000, 60, 3000
    technique = "differential monitor against a reference implementation under ASan+UBSan and MSan"
    rule = ("keys of every length from 0 to 40 and longer ones at every alignment, one after the other with all seeds, hashed by all five "
            "functions from a buffer that ends with the key's last aligned word and whose other octets are arbitrary; compared with an "
            "implementation of the published algorithm; non-trivial: distinct (key, seed, alignment)")
    min_tags = tuple("length %d" % i for i in range(0, 37)) + tuple("alignment %d" % i for i in range(8)) + ("words", "long", "over 65535")
    assumptions = ["the functions may read the whole aligned word that holds the last octet (documented)"]
    extra_kinds = ("plain", "msan")

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("plain", max(1, q // 5), self.batch, 500000), ("msan", max(2, q // 30), self.batch, 700000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            L = r.randrange(41) if r.random() < .85 else r.randrange(300)
            k = octets(r, L)
            if r.random() < .0004:
                k = r.randbytes(r.choice((65535, 65536, 65537, 65540, 70000, 131072)))
            off = r.randrange(8)
            if r.random() < .2:
                off, k = r.choice((0, 4)), k[:len(k) // 4 * 4]
            seed = r.choice((0, 0, 1, M, r.randrange(2 ** 32)))
            out.append(Case(HASH, [k, num(off), num(seed), num(r.choice((0, 0, 1, M, r.randrange(2 ** 32))))], None,
                            ["length %d" % len(k) if len(k) < 41 else "long" if len(k) < 65536 else "over 65535", "alignment %d" % off] + (["words"] if off % 4 == 0 and len(k) % 4 == 0 else [])))
        return out

    def judge(self, c, rd):
        k, off, s, t = c.args[0], *(int.from_bytes(x, "little") for x in c.args[1:])
        w = "key %s at alignment %d, seeds %d %d: " % (k.hex(), off, s, t)
        lw = words(k, "little")
        for nm, want in (("hashlittle", lookup3(lw, len(k), s, 0)[:1]), ("hashlittle2", lookup3(lw, len(k), s, t)),
                         ("hashbig", lookup3(words(k, "big"), len(k), s, 0)[:1])):
            got = tuple(rd.n() for _ in want)
            if got != want:
                return nm, w + "%s gives %s, expected %s" % (nm, got, want)
        if off % 4 == 0 and len(k) % 4 == 0:
            for nm, want in (("hashword", lookup3(lw, len(k), s, 0)[:1]), ("hashword2", lookup3(lw, len(k), s, t))):
                got = tuple(rd.n() for _ in want)
                if got != want:
                    return nm, w + "%s gives %s, expected %s" % (nm, got, want)
        if rd.left():
            return "surplus", "surplus answers"


CHECK = C40()
