import struct
from array import array
from .files import *


class C37(Check):
    prop, driver = "C37", DRIVER
    batch, quick, thorough = 12, 480, 20000
    extra_kinds, msan = ("msan",), .04
    technique = "monitor over the return times of every call on a simulated clock, under ASan+UBSan"
    rule = ("rates from 1 to 100000 per second, adjustment off or every 1 to 5000 events, callers that are quick, slow, irregular, or "
            "first one and then another, or only on the whole quick enough, late wake-ups, interrupted sleeps, clocks of nanoseconds and of microseconds; every return "
            "time is judged; non-trivial: distinct set-ups")
    min_tags = ("no adjustment", "adjusting", "quick", "slow then quick", "quick then slow", "irregular", "interrupted", "late wake-up",
                "one per second", "microseconds", "long run")
    assumptions = ["one further event a second is allowed for the rounding of ticks", "with the microsecond clock a clock call takes at least a microsecond"]

    def cases(self, r, n, bi):
        return [self.one(r) for _ in range(n)]

    def long_run(self, r):
        """A caller who could go faster on the whole, but not every time."""
        R = r.randrange(200, 10000)
        P, freq = 10 ** 9 // R, r.choice((10, 20, 37))
        jit, over = r.choice(((P * 185 // 100, 0), (0, P * 12 // 10), (0, 0), (P // 4, 0)))
        ph = [(max(3000, 150 * freq), 0, jit)]
        return Case(RATE, [num(0), num(R), num(freq), num(r.randrange(10 ** 12)), num(10), num(over), num(0), num(r.randrange(1, 1 << 60)),
                           struct.pack("<IQQ", *ph[0])], (False, R, freq, 10, over, 0, "long run" + ("" if jit or over else " quick"), ph))

    def one(self, r):
        if r.random() < .06:
            return self.long_run(r)
        b = r.random() < .35
        x = r.random()
        R = (r.choice((1, 1, 2, 3)) if x < .25 else r.randrange(1, 100) if x < .5 else r.randrange(100, 10001) if x < .85
             else r.choice((7, 11, 60, 333, 999, 1000, 1001, 9999, 10000)))
        P = 10 ** 9 // R
        freq = 0 if r.random() < .4 else r.choice((1, 2, 5, 10, 37, 100, 100, 250, 1000))
        cost = r.choice((1000, 1500)) if b else r.choice((10, 50, 200, 1000))
        over = r.choice((0, 0, 1000, 50000))
        over = min(over, P // 20)
        interrupts = r.choice((0, 3, 1)) if b and r.random() < .6 else 0
        if interrupts == 1:
            interrupts = 2
        start = r.choice((0, 10 ** 9 - 1, 5 * 10 ** 8, 1700000000 * 10 ** 9 + r.randrange(10 ** 9), r.randrange(10 ** 12)))
        N = max(400, 4 * freq) + r.randrange(1, 400)
        shape = r.choice(("quick", "quick", "quick", "slow quick", "quick slow", "irregular"))
        q, j = P // 10, P // 10
        if shape == "quick":
            if r.random() < .5:
                q, j = 0, 0
            phases = [(N, q, j)]
        elif shape == "slow quick":
            phases = [(r.randrange(1, 1500), P * r.choice((2, 3, 10, 100)), P), (max(N, 2 * R if R < 3000 else R), q, j)]
        elif shape == "quick slow":
            phases = [(N, q, j), (r.randrange(1, 300), P * r.choice((2, 5, 50)), P), (N, 0, j)]
        else:
            phases = [(r.randrange(1, 300), r.choice((0, P // 3, P - 1, P, P + 1, 5 * P)), r.choice((0, P // 2, P, 4 * P))) for _ in range(r.randrange(2, 8))]
        return Case(RATE, [num(int(b)), num(R), num(freq), num(start), num(cost), num(over), num(interrupts), num(r.randrange(1, 1 << 60)),
                           b"".join(struct.pack("<IQQ", *p) for p in phases)], (b, R, freq, cost, over, interrupts, shape, phases))

    def judge(self, c, rd):
        b, R, freq, cost, over, interrupts, shape, phases = c.ctx
        t = self._t = {"adjusting" if freq else "no adjustment"}
        t.add({"quick": "quick", "slow quick": "slow then quick", "quick slow": "quick then slow", "irregular": "irregular"}.get(shape, "long run"))
        if interrupts:
            t.add("interrupted")
        if over:
            t.add("late wake-up")
        if R == 1:
            t.add("one per second")
        if b:
            t.add("microseconds")
        live = rd.b()
        if live == b"invalid time":
            return "invalid time", "a sleep until a time with a bad number of nanoseconds is asked for"
        if int.from_bytes(live, "little"):
            return "memory", "the limiter stays allocated"
        if rd.n() != 1:
            return "destroy", "the pointer is not cleared"
        sleeps = rd.n()
        ts = array("Q")
        ts.frombytes(rd.b())
        n = len(ts)
        if n != sum(p[0] for p in phases):
            return "trace", "calls"
        P = 1e9 / R
        who = "rate %d, adjusting every %d, %s: " % (R, freq, shape)
        slack = over + 3 * cost + (2000 if b else 10)
        if interrupts:
            slack += 10 * cost + 60000
        if not freq:
            # no window holds more than the ticks in it and one more
            per, low = R + 1, None
            for k in range(n):
                v = k - per * ((ts[k] - ts[0]) / 1e9)
                if low is None or v < low[0]:
                    low = (v, k)
                if v - low[0] > 2.5:
                    return "too fast", who + "calls %d to %d return within %.9f s" % (low[1], k, (ts[k] - ts[low[1]]) / 1e9)
        if shape.startswith("long run"):
            rate = (n - 1) / ((ts[-1] - ts[0]) / 1e9)
            if not .95 * R <= rate <= 1.06 * R:
                return "long run", who + "the average of %d calls is %.3f a second" % (n, rate)
            return None
        # phases
        at = 0
        for pi, (cnt, work, jit) in enumerate(phases):
            seg = ts[at:at + cnt]
            at += cnt
            if cnt < 3 or work + jit + over + slack > P * .6:
                continue            # not a quick caller
            el = seg[-1] - seg[0]
            if not freq:
                if el > (cnt - 1) * P + P + slack * (3 if interrupts else 1):
                    return "too slow", who + "%d calls by a quick caller take %.6f s" % (cnt, el / 1e9)
                continue
            if cnt < 400 or cnt < 4 * freq or over > P / 20 or cost > P / 20:
                continue
            rate = (cnt - 1) / (el / 1e9) if el else float("inf")
            h = cnt // 2
            el2 = seg[-1] - seg[h]
            rate2 = (cnt - 1 - h) / (el2 / 1e9) if el2 else float("inf")
            if freq < 5:
                # every call or two another grid of ticks: only the order of magnitude is judged
                if not .4 * R - 1 <= rate2 <= 5 * R + 4:
                    return "no limit at all", who + "the last of %d calls run at %.3f a second" % (cnt, rate2)
            elif pi == 0:
                if not .88 * R - 1 <= rate <= 1.12 * R + 2:
                    return "average", who + "the average of %d calls is %.3f a second" % (cnt, rate)
            else:
                if rate > 4 * R + 4:
                    return "no limit", who + "%d calls run at %.1f a second" % (cnt, rate)
                if rate2 > 2.3 * R + 4:
                    return "no limit later", who + "the last of %d calls run at %.1f a second" % (cnt, rate2)
                if rate2 < .42 * R - 1:
                    return "stalled", who + "the last of %d calls run at %.3f a second" % (cnt, rate2)
        if rd.left():
            return "surplus", "surplus answers"

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C37()
