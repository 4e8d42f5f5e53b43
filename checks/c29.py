import hashlib
from vf import runner as R
from vf.runner import Case, Check, num, run_batch

SRC = ["q_mb.c", "q_mutex.c"]
INST = {("sched", s): ["-fsanitize=thread"] for s in SRC}
INIT, SEQ, SCHED = 1, 2, 3
VAR = ("direct", "mutex")


class C29(Check):
    prop = "C29"
    kind = "asan"
    extra_kinds = ("ubsan", "sched", "plain", "tsan")
    technique = ("schedule-controlled execution at every memory access with an online monitor of the producer/consumer history, "
                 "real-thread stress, ThreadSanitizer, ASan+UBSan")
    rule = ("one producer and one consumer exchanged at every memory access of the queue's code: every schedule with at most two "
            "(thorough: three or four) preemptions from empty, partly filled and full queues at every rotation of the ring, random schedules "
            "with up to half of the accesses preempted, and the same with stores that no barrier orders made visible late; real "
            "threads at full speed with several paces; sequential histories and initialisations; the monitor checks order, "
            "exactly-once, integrity, refusals and reported sizes of every call; non-trivial: distinct interleavings, taken per "
            "configuration")
    assumptions = ["schedules are sequentially consistent, or with stores between barriers in any order per location; late loads are not simulated",
                   "sizes of less than 4 GB in all"]
    min_tags = ("init refused", "init accepted", "sequential", "full", "empty") + tuple(
        "%s %s" % (a, b) for a in VAR for b in ("enumerated", "random", "stress plain", "refused full", "refused empty", "exchanged inside")) + (
        "direct late stores", "mutex tsan", "wrap-around")

    def build(self, b, kind):
        if kind in ("plain", "tsan"):
            return b.harness("qstress", kind, ["qstress.c"] + SRC, lib=False)
        return b.harness("queue", kind, ["queue.c"] + SRC, lib=False, flags_for=INST)

    def plan(self, tier):
        q = tier == "quick"
        return [("asan", 8 if q else 100, 300, 0), ("ubsan", 4 if q else 50, 300, 500000), ("sched", 60 if q else 900, 1, 1000000),
                ("plain", 8 if q else 120, 1, 2000000), ("tsan", 4 if q else 40, 1, 3000000)]

    def cases(self, r, n, bi):
        if bi >= 2000000:
            return self.stress(r, bi)
        if bi >= 1000000:
            return self.sched(r, bi - 1000000)
        out = []
        for _ in range(n):
            v = r.randrange(2)
            if r.random() < .3:
                k = r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 64, 100, 255, 256, 1023, 1024, 65535, 65536, 131072, 65536 * 3, r.randrange(4096), 1 << r.randrange(17)))
                out.append(Case(INIT, [num(v), num(k), num(r.choice((1, 4, 8, 33)))], k))
            else:
                k = 2 << r.randrange(r.choice((3, 3, 7)))
                p = bytearray()
                bias = .5
                for i in range(r.randrange(1, 400)):
                    if r.random() < .08:
                        bias = r.choice((.1, .3, .5, .7, .9))
                    p.append((r.random() < bias) | 2 * (r.random() < .3))
                out.append(Case(SEQ, [num(v), num(k), num(r.choice((1, 2, 3, 4, 7, 8, 16, 100, 0 if r.random() < .1 else 5))), bytes(p)], (k, p)))
        return out

    def sched(self, r, i):
        thorough = self.tier != "quick"
        v = i % 2
        k = i // 2
        out = []
        if k % 5 < 2:
            parts = 4 if thorough else 1
            for part in range(parts):
                size = r.choice((2, 2, 4, 4, 8))
                z = r.choice((1, 4, 8, 12, 24))
                a, b = (2, 2) if thorough else (3, 3)
                if r.random() < .3:
                    a, b = (1, 3) if r.random() < .5 else (3, 1)
                rot, pre = r.randrange(size + 1), r.choice((0, 0, 1, size - 2, size - 1, size - 1))
                out.append((size, z, a, b, rot, pre, int(r.random() < .4), 3 if thorough else 2, part, parts, 0))
        else:
            for _ in range(2 if not thorough else 6):
                size = r.choice((2, 4, 4, 8, 16))
                out.append((size, r.choice((1, 4, 8, 12, 24, 200)), r.randrange(2, 20), r.randrange(2, 20), size, size - 1,
                            int(r.random() < .4), 0, 0, 1, 15000))
        return [Case(SCHED, [num(v)] + [num(x) for x in c] + [num(r.randrange(2 ** 63))], (v,) + c) for c in out]

    def stress(self, r, bi):
        v = bi % 2 if bi < 3000000 else 1
        out = []
        for _ in range(6):
            n = r.choice((2, 2, 4, 8, 64, 1024))
            z = r.choice((1, 4, 8, 16, 40, 64, 200, 1000))
            if r.random() < .12:
                n, z = r.choice((32768, 65536, 131072)), r.choice((4, 8, 16))
            if bi >= 3000000:
                tot = 15000
            else:
                tot = 150000 if self.tier == "quick" else 600000
            out.append(Case(9, [num(v), num(n), num(z), num(tot), num(r.randrange(2 ** 63)), num(r.randrange(6)), num(r.random() < .6)],
                            ("stress", v, "plain" if bi < 3000000 else "tsan", tot)))
        return out


    def judge(self, c, rd):
        t = self._t = set()
        self._n = None
        if c.op == INIT:
            k = c.ctx
            want = k >= 2 and k & (k - 1) == 0
            t.add("init accepted" if want else "init refused")
            a = rd.n()
            if a != int(want):
                return "init", "a queue of %d elements is %s" % (k, "made" if a else "refused")
            if rd.n() != 1 or rd.n() != 0:
                return "destroy", "after destruction memory stays allocated or the pointer is set"
            if not rd.b():
                return "impl_type", "no description"
        elif c.op == SEQ:
            k, p = c.ctx
            inside = total = 0
            t.add("sequential")
            for i, o in enumerate(p):
                a, x = rd.n(), rd.n()
                w = "step %d of a queue for %d with %d inside: " % (i, k, inside)
                if o & 1:
                    want = int(inside < k - 1)
                    if not want:
                        t.add("full")
                    if a != want:
                        return "insert", w + "insertion gives %d" % a
                    inside += a
                    total += a
                    if total > 2 * k:
                        t.add("wrap-around")
                    left = k - 1 - inside
                else:
                    want = int(inside > 0)
                    if not want:
                        t.add("empty")
                    if a != want:
                        return "remove", w + ("removal gives nothing" if a == 0 else "removal from an empty queue" if not want else "another element than the next one comes out")
                    inside -= a
                    left = inside
                if not o & 2 and x != left:
                    return "size", w + "reported size %d, expected %d" % (x, left)
                if o & 2 and x != 0xdeadbeef:
                    return "size", w + "a size although none was asked for"
            if rd.n() != 1:
                return "destroy", "the pointer is not cleared"
        elif c.op == SCHED:
            bad, where = rd.s(), rd.s()
            f = [rd.n() for _ in range(10)]
            self._n = f
            v = VAR[c.ctx[0]]
            t.add(v + (" random" if c.ctx[-1] else " enumerated"))
            if f[3]:
                t.add(v + " exchanged inside")
            if f[5]:
                t.add(v + " late stores")
            if f[7]:
                t.add(v + " refused full")
            if f[9]:
                t.add(v + " refused empty")
            if bad:
                return "schedule: " + "".join(x for x in bad if not x.isdigit()), "%s queue for %d elements of %d octets%s: %s; %s" % (
                    v, c.ctx[1], c.ctx[2], ", unordered stores late" if c.ctx[7] else "", bad, where)
        else:
            _, v, kind, tot = c.ctx
            b = [rd.s(), rd.s()]
            P, C, more, full, empty, sw = [rd.n() for _ in range(6)]
            t.add("%s stress %s" % (VAR[v], kind) if kind == "plain" else VAR[v] + " tsan")
            self._n = [0, 0, sw, 0, 0, 0, P, full, C, empty]
            for x in b:
                if x:
                    return "stress: " + "".join(y for y in x if not y.isdigit()), "%s queue, real threads: %s" % (VAR[v], x)
            if not P == C == tot or more:
                return "stress: count", "%d accepted, %d delivered of %d" % (P, C, tot)
        if rd.left():
            return "surplus", "surplus answers"

    NAMES = ("schedules", "distinct interleavings", "exchanges", "exchanges inside both calls", "waits for a lock", "late stores",
             "accepted", "refused full", "delivered", "refused empty")

    def tag(self, c, f):
        return sorted(self._t) + (
            ["#%s%s=%d" % ("real threads: " if c.op == 9 else "", a, b) for a, b in zip(self.NAMES, self._n) if b] if self._n else [])

    def nontrivial(self, c, f):
        return True

    def extra(self, ctx):
        # totals over what the schedules and the threads did, from the workers' tags
        tot = {}
        for t in list(ctx.tags):
            if t and t.startswith("#"):
                nm, v = t[1:].split("=")
                tot[nm] = tot.get(nm, 0) + int(v) * ctx.tags.pop(t)
        ctx.notes["schedule_totals"] = tot


CHECK = C29()
