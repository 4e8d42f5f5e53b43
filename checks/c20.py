from .common import *


def rds(r):
    x = r.random()
    k = r.choice((0, 1, 2, 2, 3, 4, 5, 7, 8, 16)) if x < .95 else r.choice((33, 64, 100, 300, 300, 1025, 3000))
    y = r.random()
    out = []
    base = G.rbytes(r, r.choice((1, 3, 4, 8, 16)))
    for _ in range(k):
        if y < .3:
            out.append(G.rbytes(r, r.choice((0, 1, 1, 2, 4))))
        elif y < .6:
            # long common prefixes, one octet apart, signs of octets
            b = bytearray(base)
            b[r.randrange(len(b))] = r.choice((0, 1, 0x7f, 0x80, 0xff))
            out.append(bytes(b))
        elif y < .8:
            out.append(base[:r.randrange(len(base) + 1)] + bytes([r.choice((0, 1, 127, 128, 255))]) * r.randrange(3))
        else:
            out.append(G.rdata(r, G.any_type(r))[:600])
    if out and r.random() < .3:
        out += [r.choice(out) for _ in range(r.randrange(1, 4))]
    if r.random() < .01:
        n = r.choice((255, 256, 257, 32768, 65535))
        out += [bytes(n), bytes(n - 1) + b"\1", bytes(n - 1)]
    return out


class C(Check):
    prop = "C20"
    batch, quick, thorough = 3000, 64, 4000
    fuzz = 8
    technique = "permutation and order monitor on sorted RRsets"
    rule = ("RRsets with many near-equal, equal, prefix-related and different-length rdatas, each in several random orders: the "
            "sorted sequence has to be the permutation ordered by (length, octets), everything else as before; non-trivial: "
            "two or more rdatas")
    min_tags = ("0", "1", "2", "3", ">16", "duplicates", "same order from two orders")
    assumptions = []

    def cases(self, r, n, bi):
        out = []
        while len(out) < n:
            l = rds(r)
            nm, t, c, ttl = G.name(r, 60), G.any_type(r), G.any_class(r), G.u32(r)
            out.append(Case(SORT, rrset_args(nm, t, c, ttl, l)))
            for _ in range(r.randrange(3)):
                l = list(l)
                x = r.random()
                if x < .2:
                    l.sort(key=lambda v: (len(v), v), reverse=True)
                elif x < .3:
                    l.sort(key=lambda v: (len(v), v))
                elif x < .4:
                    l.sort()
                else:
                    r.shuffle(l)
                out.append(Case(SORT, rrset_args(nm, t, c, ttl, l), tag="same order from two orders"))
        return out

    def judge(self, case, rd):
        a = case.args
        num_ = lambda b: int.from_bytes(b, "little")
        res, s = rd.n(), read_rrset(rd)
        want = sorted(a[4:], key=lambda v: (len(v), v))
        if res:
            return "refused", "sorting is refused (%d)" % res
        if s[:4] != [num_(a[3]), num_(a[1]), num_(a[2]), a[0]]:
            return "rest changed", "something else than the order changes: %r" % s
        if sorted(s[4]) != sorted(a[4:]):
            return "rdatas lost", "%s becomes %s" % ([x.hex() for x in a[4:]], [x.hex() for x in s[4]])
        if s[4] != want:
            return "order", "%s is sorted to %s" % ([x.hex() for x in a[4:]], [x.hex() for x in s[4]])
        return None

    def tag(self, case, res):
        l = case.args[4:]
        t = [str(len(l)) if len(l) < 17 else ">16"]
        if len(set(l)) < len(l):
            t.append("duplicates")
        if case.tag:
            t.append(case.tag)
        return t

    def nontrivial(self, case, res):
        return len(case.args) > 5


CHECK = C()
