import struct
from .files import *


class C36(Check):
    prop, driver = "C36", DRIVER
    batch, quick, thorough = 100, 40, 1200
    technique = "history monitor over deliveries and directory contents, concurrent consumers, ASan+UBSan and ThreadSanitizer"
    rule = ("histories of files, dot files, directories, FIFOs and links that lead to no file appearing in the incoming directory, older files and directories of the "
            "same name in the active one, restarts, and calls; then one to eight threads taking files while up to four others put "
            "them there; each delivery, its content and both directories at the end are compared with what was put in; "
            "non-trivial: distinct histories")
    min_tags = ("delivered", "nothing", "dot", "directory", "replaced", "blocked", "restart", "odd name", "fifo", "dangling link", "link to a directory",
                "threads asan", "threads tsan")
    extra_kinds = ("tsan", "msan")

    def plan(self, tier):
        q = tier == "quick"
        return [("asan", self.quick if q else self.thorough, self.batch, 0), ("asan", 8 if q else 100, 6, 1000000),
                ("tsan", 16 if q else 200, 4, 2000000), ("msan", 2 if q else 60, self.batch, 500000)]

    def cases(self, r, n, bi):
        if bi >= 1000000:
            self._k = "asan" if bi < 2000000 else "tsan"
            out = []
            for _ in range(n):
                np_ = r.randrange(0, 5)
                out.append(Case(SPOOLMT, [num(r.randrange(1, 9)), num(np_), num(r.randrange(1, 60)), num(r.randrange(1, 80)),
                                          num(r.randrange(3))], self._k))
            return out
        return [self.one(r) for _ in range(n)]

    def name(self, r):
        k = r.random()
        if k < .5:
            return b"m%d" % r.randrange(12)
        if k < .6:
            return b"." + r.choice((b"m1", b"hidden", b"..x"))
        s = r.choice((b"%s%s%n", b"a b", b"x.y", b"-rf", b"\xff\xfe", b"~", b"100%", b"active", b"incoming", b"z" * 250, b"m1.", b"\\", b"'\"", b"\x01", b"%d"))
        return s

    def one(self, r):
        p, prog, used = bytearray(), [], {}
        serial = 1
        inc, dirs = {}, set()           # what the model puts there
        for _ in range(r.randrange(1, 40)):
            o = r.choice((0, 0, 0, 0, 2, 3, 4, 4, 4, 4, 4, 5, 6, 7, 8, 9, 10)) if r.random() < .7 else r.choice((0, 4))
            if o in (0, 2, 3, 5, 8, 9, 10):
                nm = self.name(r)
                prog.append([o, nm, serial])
                serial += 1
            else:
                prog.append([o])
        prog += [[4]] * 3 + [[6]]
        # the model of the names decides which operations are possible; it needs no deliveries
        out, state = [], {"i": {}, "a": {}}
        have = r.choice((0, 1, 2, 3))
        pre = [q for q in prog if q[0] in (0, 2)]
        fixed = []
        kinds = {}
        for q in prog:
            if q[0] in (0, 2, 3, 5, 8, 9, 10):
                nm = q[1]
                where = "a" if q[0] in (3, 5) else "i"
                kd = "f" if q[0] in (0, 3) else "d"
                if q[0] > 5 and (where, nm) in kinds:
                    continue
                # one kind per name and directory, so that putting it there always works; a directory in the
                # active directory never meets a delivered file of the name before
                if kinds.get((where, nm), kd) != kd:
                    continue
                if where == "a" and kd == "d" and kinds.get(("i", nm)) == "f" and (where, nm) not in kinds:
                    continue
                if where == "a" and kd == "f" and kinds.get(("a", nm), "f") != "f":
                    continue
                if where == "i" and kd == "d" and nm.startswith(b".."):
                    continue
                kinds[where, nm] = kd
            fixed.append(q)
        if any(q[0] in (0, 2, 8, 9, 10) for q in fixed):
            have |= 1
        if any(q[0] in (3, 5) for q in fixed):
            have |= 2
        for q in fixed:
            p.append(q[0])
            if q[0] in (0, 2, 3, 5, 8, 9, 10):
                p.append(len(q[1]))
                p += q[1]
                if q[0] in (0, 3):
                    p += struct.pack("<I", q[2])
        return Case(SPOOL, [num(have), bytes(p)], (fixed,))

    def listing(self, rd):
        d = {}
        while True:
            nm = rd.b()
            if nm == b"/":
                return d
            d[nm] = rd.b()

    def judge(self, c, rd):
        t = self._t = set()
        if c.op == SPOOLMT:
            return self.judge_mt(c, rd)
        (prog,) = c.ctx
        DIR = b"\xff<DIR>"
        inc, act = {}, {}
        nulls, since = 0, []            # consecutive calls without a result, and since when nothing was put in
        for step, q in enumerate(prog):
            o = q[0]
            w = "step %d: " % step
            if o == 0:
                inc[q[1]] = struct.pack("<I", q[2])
                nulls = 0
                if not q[1].isalnum():
                    t.add("odd name")
                if q[1].startswith(b"."):
                    t.add("dot")
            elif o == 3:
                act[q[1]] = struct.pack("<I", q[2])
            elif o in (2, 8, 9, 10):
                inc.setdefault(q[1], DIR)
                t.add({2: "directory", 8: "fifo", 9: "dangling link", 10: "link to a directory"}[o])
            elif o == 5:
                act.setdefault(q[1], DIR)
            elif o == 4:
                r = rd.b()
                ready = {k for k, v in inc.items() if v != DIR and not k.startswith(b".")}
                stuck = {k for k in ready if act.get(k) == DIR}
                if stuck:
                    t.add("blocked")
                if r == NULL:
                    t.add("nothing")
                    nulls += 1
                    # one for an end of the directory read before, one for each name that cannot be moved
                    if ready - stuck and nulls > 1 + 2 * len(stuck):
                        return "not delivered", w + "%d calls in a row give nothing although %s are waiting" % (nulls, sorted(ready - stuck)[:5])
                else:
                    content = rd.b()
                    nulls = 0
                    t.add("delivered")
                    if r not in inc:
                        return "foreign", w + "%r is delivered, waiting are %s" % (r, sorted(inc)[:10])
                    if r not in ready:
                        return "not to be delivered", w + "%r is delivered" % r
                    if r in stuck:
                        return "moved over a directory", w + "%r" % r
                    if content != inc[r]:
                        return "content", w + "%r holds %s, put in was %s" % (r, content.hex(), inc[r].hex())
                    if r in act:
                        t.add("replaced")
                    act[r] = inc.pop(r)
            elif o == 6:
                i, a = self.listing(rd), self.listing(rd)
                if i != inc:
                    return "incoming", w + "the incoming directory holds %s, expected %s" % (sorted(i.items())[:10], sorted(inc.items())[:10])
                if a != act:
                    return "active", w + "the active directory holds %s, expected %s" % (sorted(a.items())[:10], sorted(act.items())[:10])
            elif o == 7:
                t.add("restart")
                nulls = 0
                if rd.n() != 1:
                    return "destroy", w + "the pointer is not cleared"
        live = rd.n()
        if live:
            return "memory", "%d blocks stay allocated" % live
        if rd.left():
            return "surplus", "surplus answers"

    def judge_mt(self, c, rd):
        nc, np_, each, start, _ = (int.from_bytes(x, "little") for x in c.args)
        self._t.add("threads " + c.ctx)
        want = {b"m%d" % i: struct.pack("<I", i) for i in range(start)}
        for p in range(np_):
            want.update((b"m%d" % (100000 * (p + 1) + i), struct.pack("<I", 100000 * (p + 1) + i)) for i in range(each))
        seen = {}
        if rd.n() != nc:
            return "trace", "threads"
        for k in range(nc):
            n, nulls = rd.n(), rd.n()
            if n:
                self._t.add("delivering threads %d" % k)
            for _ in range(n):
                nm, content = rd.b(), rd.b()
                if nm in seen:
                    return "delivered twice", "%r is delivered to threads %d and %d" % (nm, seen[nm], k)
                seen[nm] = k
                if nm not in want:
                    return "foreign", "%r is delivered" % nm
                if content != want[nm]:
                    return "content", "%r holds %s" % (nm, content.hex())
        left = self.listing(rd)
        if left or len(seen) != len(want):
            return "lost", "%d of %d files are delivered, %d stay" % (len(seen), len(want), len(left))

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C36()
