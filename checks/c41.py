import errno, math, struct
from fractions import Fraction
from .misc import *

G9 = 10 ** 9


def nsec(r):
    return r.choice((0, 1, 999999999, 999999998, 500000000, 1000, r.randrange(G9), r.randrange(G9), r.randrange(G9)))


def sec(r):
    k = r.random()
    return (r.choice((0, 1, 2, 59, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 40)) if k < .3 else r.randrange(100) if k < .5
            else r.randrange(1 << r.randrange(1, 45)))


class C41(Check):
    prop, driver = "C41", DRIVER
    batch, quick, thorough = 3000, 24, 1500
    technique = "differential monitor against integer and rational arithmetic, with scripted nanosleep() results, under ASan+UBSan and MSan"
    rule = ("pairs of times with seconds from 0 to 2^45 and every kind of nanosecond part added and subtracted in both orders, times "
            "converted to seconds and back, sleeps cut by any number of interruptions and by errors, the clock read between two other "
            "readings; compared with exact arithmetic; non-trivial: distinct calls")
    min_tags = ("add", "add carry", "sub", "sub borrow", "sub negative", "to double", "from double", "from double large", "from double whole",
                "sleep", "sleep interrupted", "sleep many", "sleep error", "clock")
    assumptions = ["times given are in normal form (0 <= nanoseconds < 10^9); seconds given as a floating-point number are not negative; a "
                   "conversion may be off by the rounding of one floating-point operation"]
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(2, q // 4), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            k = r.random()
            if k < .3:
                a, b = (sec(r), nsec(r)), (sec(r), nsec(r))
                if r.random() < .2:
                    b = (b[0], max(0, min(G9 - 1, G9 - a[1] + r.choice((-1, 0, 1)))))
                out.append(Case(TADD, [num(x) for x in a + b], None, ["add"] + ["add carry"] * (a[1] + b[1] >= G9)))
            elif k < .6:
                a, b = (sec(r), nsec(r)), (sec(r), nsec(r))
                if r.random() < .3:
                    b = (a[0] + r.choice((0, 0, 1, -1 if a[0] else 0)), max(0, min(G9 - 1, a[1] + r.choice((-1, 0, 1, r.randrange(-G9, G9))))))
                out.append(Case(TSUB, [num(x) for x in a + b], None,
                                ["sub"] + ["sub borrow"] * (a[1] > b[1]) + ["sub negative"] * ((a[0], a[1]) > (b[0], b[1]))))
            elif k < .7:
                out.append(Case(TODBL, [num(sec(r)), num(nsec(r))], None, ["to double"]))
            elif k < .85:
                x = r.random()
                d = (float(sec(r)) if x < .2 else sec(r) + nsec(r) / 1e9 if x < .6 else r.random() * 10 ** r.randrange(-9, 12) if x < .9
                     else r.choice((0.0, 0.1, 0.5, 1e-9, 1e-10, 0.999999999, 0.9999999999, math.nextafter(1, 0), 2147483647.5, 2147483648.5, 4294967296.25)))
                out.append(Case(FROMDBL, [struct.pack("<d", d)], None,
                                ["from double"] + ["from double large"] * (d >= 2 ** 31) + ["from double whole"] * (d == int(d))))
            elif k < .98:
                x = r.random()
                m = 0 if x < .2 else r.randrange(1, 4) if x < .7 else r.randrange(4, 100)
                s = [(errno.EINTR, sec(r), nsec(r)) for _ in range(m)]
                if r.random() < .15:
                    s.append((r.choice((errno.EINVAL, errno.EFAULT)), sec(r), nsec(r)))
                out.append(Case(SLEEP, [num(sec(r)), num(nsec(r)), b"".join(struct.pack("<IQQ", *q) for q in s), num(r.choice((0, errno.EINTR)))], s,
                                ["sleep"] + ["sleep interrupted"] * (m > 0) + ["sleep many"] * (m > 3) + ["sleep error"] * (len(s) > m)))
            else:
                out.append(Case(GETTIME, [num(0)], None, ["clock"]))
        return out

    def judge(self, c, rd):
        v = [int.from_bytes(x, "little") for x in c.args]
        ts = lambda: (signed(rd.n()), signed(rd.n()))
        if c.op in (TADD, TSUB):
            b, a = ts(), ts()
            t = v[2] * G9 + v[3] + (v[0] * G9 + v[1]) * (1 if c.op == TADD else -1)
            if a != (v[0], v[1]):
                return "operand", "the first operand has become %d s %d ns" % a
            if b != divmod(t, G9):
                return ("sum" if c.op == TADD else "difference", "%d s %d ns %s %d s %d ns gives %d s %d ns, expected %d s %d ns" %
                        ((v[2], v[3], "+" if c.op == TADD else "-", v[0], v[1]) + b + divmod(t, G9)))
        elif c.op == TODBL:
            (d,) = struct.unpack("<d", rd.b())
            want = Fraction(v[0]) + Fraction(v[1], G9)
            if not math.isfinite(d) or abs(Fraction(d) - want) > Fraction(math.ulp(float(want))):
                return "to double", "%d s %d ns gives %r seconds" % (v[0], v[1], d)
        elif c.op == FROMDBL:
            (d,) = struct.unpack("<d", c.args[0])
            s, ns = ts()
            if not 0 <= ns < G9:
                return "nanoseconds", "%r seconds give %d s and %d ns" % (d, s, ns)
            err = Fraction(d) - s - Fraction(ns, G9)
            if s != int(d) or not -Fraction(1, 10 * G9) < err < Fraction(11, 10 * G9):
                return "from double", "%r seconds give %d s %d ns" % (d, s, ns)
        elif c.op == SLEEP:
            if ts() != (v[0], v[1]):
                return "operand", "the time to sleep has been changed"
            want = [(v[0], v[1])]
            for e, s, ns in c.ctx:
                if e != errno.EINTR:
                    break
                want.append((s, ns))
            got = [ts() for _ in range(rd.left() // 2)]
            if got != want:
                return "sleep", "sleeps asked for: %s; expected: %s" % (got[:6], want[:6])
        else:
            a, b, d = ts(), ts(), ts()
            # the clock may be read with a resolution of a microsecond
            if not (a[0], a[1] // 1000) <= (b[0], b[1] // 1000) <= (d[0], d[1] // 1000):
                return "clock", "the clock reads %s between %s and %s" % (b, a, d)


CHECK = C41()
