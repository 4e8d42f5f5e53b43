import struct
from .misc import *

ADD, SUB, ZERO, SUBT, INC, DEC, DECT, INCT, ADDN, SET, READ = range(11)


class C42(Check):
    prop, driver = "C42", DRIVER
    batch, quick, thorough = 2000, 16, 600
    technique = "history monitor of single-threaded calls; conservation monitor over concurrent ones, at full speed and under ThreadSanitizer"
    rule = ("sequences of every operation on 32- and 64-bit counters against integer arithmetic; 2 to 12 threads that add, subtract and "
            "take away at random, count down or up to a limit which exactly one of them has to see, hold references, set pointers, or "
            "register for a number: the sums, the number of threads told of the limit and the final values are compared with what was "
            "done; non-trivial: distinct cases")
    min_tags = tuple("%s %s" % (w, o) for w in (32, 64) for o in ("add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test",
                "inc_and_test", "add_negative", "set", "read")) + tuple("%s scenario %d" % (k, s) for k in ("plain", "tsan") for s in range(7)) + (
                "64 beyond 32 bits", "tsan number", "plain number", "tsan pointer", "plain pointer", "32 wrap")
    assumptions = ["32-bit operands are given to 32-bit counters", "ThreadSanitizer sees an access that is not atomic"]
    extra_kinds = ("plain", "tsan")

    def plan(self, tier):
        q = tier == "quick"
        return [("asan", self.quick if q else self.thorough, self.batch, 0), ("plain", 16 if q else 400, 24, 1000000),
                ("tsan", 16 if q else 300, 24, 2000000)]

    def cases(self, r, n, bi):
        if bi >= 1000000:
            return [self.mt(r, i, "plain" if bi < 2000000 else "tsan") for i in range(n)]
        names = ("add", "sub", "zero", "sub_and_test", "inc", "dec", "dec_and_test", "inc_and_test", "add_negative", "set", "read")
        out = []
        for _ in range(n):
            w = r.choice((32, 64))
            lim = 1 << w - 1

            def val():
                k = r.random()
                return (r.randrange(-3, 4) if k < .5 else r.choice((lim - 1, -lim, -1, 0, 1, 2 ** 31 - 1, -2 ** 31, lim // 2)) if k < .7
                        else r.randrange(-lim, lim) >> r.randrange(w))
            x = v = val()
            p, tags = b"", set()
            res = []
            for _ in range(r.randrange(1, 30)):
                o = r.randrange(11)
                a = val()
                if o in (SUBT, SUB) and r.random() < .5:
                    a = v
                if o == ADDN and r.random() < .4:
                    a = signed(-v + r.choice((0, -1, 1)), w)
                if o in (INCT, DECT) and r.random() < .5:
                    v = -1 if o == INCT else 1
                    p += struct.pack("<Bq", SET, v)
                    res.append((0, v))
                p += struct.pack("<Bq", o, a)
                tags.add("%d %s" % (w, names[o]))
                ret, old = 0, v
                full = v + {ADD: a, ADDN: a, SUB: -a, SUBT: -a, INC: 1, INCT: 1, DEC: -1, DECT: -1}.get(o, 0)
                v = signed(full, w)
                if v != full and w == 32:
                    tags.add("32 wrap")
                if o in (SUBT, DECT, INCT):
                    ret = int(v == 0)
                elif o == ADDN:
                    ret = int(v < 0)
                elif o == ZERO:
                    ret, v = v, 0
                elif o == SET:
                    v = a
                elif o == READ:
                    ret = v
                if w == 64 and not -2 ** 31 <= old < 2 ** 31:
                    tags.add("64 beyond 32 bits")
                res.append((ret, v))
            out.append(Case(ATOMSEQ, [num(w), snum(x), p], res, sorted(tags)))
        return out

    def mt(self, r, i, kind):
        s = i % 9
        t = r.randrange(2, 13)
        slow = 1 if kind == "plain" else 20
        if s == 7:
            return Case(THREADNUM, [num(t), num(r.randrange(100))], kind, [kind + " number"])
        if s == 8:
            return Case(ATOMPTR, [num(t), num(r.randrange(1, 40000 // slow)), num(r.randrange(1 << 32))], kind, [kind + " pointer"])
        w = r.choice((32, 64))
        k = r.randrange(1, 60000 // slow)
        init = {0: r.randrange(-100, 100), 1: t * k, 2: -t * k, 3: 3 * t * k, 4: -t * k, 5: 1, 6: r.randrange(-10, 10)}[s]
        if w == 64 and s in (0, 6) and r.random() < .5:
            init += 2 ** 31 * r.choice((1, -1, 3))
        if s == 1 and r.random() < .3:
            init += r.choice((1, -1))
        return Case(ATOMMT, [num(w), num(t), num(k), num(r.randrange(1 << 32)), snum(init), num(s)], (w, t, k, init, s), ["%s scenario %d" % (kind, s)])

    def judge(self, c, rd):
        if c.op == ATOMSEQ:
            w = int.from_bytes(c.args[0], "little")
            for i, (ret, v) in enumerate(c.ctx):
                got = signed(rd.n()), signed(rd.n())
                if got != (ret, v):
                    o, a = struct.unpack_from("<Bq", c.args[2], 9 * i)
                    return ("operation %d" % o, "%d-bit counter: operation %d (operand %d), the %dth, gives %d and leaves %d; expected %d and %d" %
                            ((w, o, a, i + 1) + got + (ret, v)))
        elif c.op == ATOMMT:
            w, t, k, init, s = c.ctx
            d, z, y, *v = [signed(rd.n()) for _ in range(6)]
            what = "%d threads, %d rounds, %d-bit, start %d, scenario %d: " % (t, k, w, init, s)
            if s == 0:
                # each amount taken away by a reset is counted once
                if signed(init + d - z - v[0], w) != 0:
                    return "lost update", what + "added %d, taken %d, left %d" % (d, z, v[0])
            elif s in (1, 2, 3, 4):
                step = {1: -1, 2: 1, 3: -3, 4: 1}[s]
                want = init + step * t * k
                if v[0] != want:
                    return "lost update", what + "ends at %d, expected %d" % (v[0], want)
                if s == 4:
                    yes = t * k - 1
                else:
                    yes = int((init > 0) == (step < 0) and init % step == 0 and abs(init) <= abs(step) * t * k)
                if y != yes:
                    return "told", what + "%d calls were told of the limit, expected %d" % (y, yes)
            elif s == 5:
                if y != 0 or v[1] != 1:
                    return "reference", what + "%d threads believed they had the last reference, which was never given back; count %d" % (y, v[1])
            elif sum(v) != 3 * init + t * k:
                return "lost update", what + "sum of the counters %d, expected %d" % (sum(v), 3 * init + t * k)
        elif c.op == THREADNUM:
            t = int.from_bytes(c.args[0], "little")
            m = rd.n(), rd.n()
            got = [(rd.n(), rd.n()) for _ in range(t)]
            if m != (0, 0):
                return "main", "a thread that never registered has the numbers %s" % (m,)
            if any(a != b for a, b in got):
                return "changing", "a thread's number has changed: %s" % got
            if len({a for a, _ in got}) != t:
                return "not unique", "numbers given: %s" % sorted(a for a, _ in got)
            a = sorted(a for a, _ in got)
            if a != list(range(a[0], a[0] + t)):
                return "gap", "numbers given: %s" % a
        else:
            t = int.from_bytes(c.args[0], "little")
            end = signed(rd.n())
            lasts, total = set(), 0
            for _ in range(t):
                n, foreign, last = rd.n(), rd.n(), rd.n()
                if foreign:
                    return "foreign pointer", "a pointer was read that nobody had set"
                total += n
                if n:
                    lasts.add(last)
            if total == 0:
                return "never set", "of all calls not one has set the pointer"
            if end not in lasts:
                return "final pointer", "the pointer at the end is none that a thread set last"


CHECK = C42()
