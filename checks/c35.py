import struct
from .files import *


def NM(a):
    return "%s%d" % ("fF"[a >> 7], a & 127)


class C35(Check):
    prop, driver = "C35", DRIVER
    batch, quick, thorough = 150, 48, 1500
    technique = "history monitor over load and unload events, under ASan+UBSan"
    rule = ("sequences of rewriting the set file (renamed into place, in place, with the same modification time, removed), creating and "
            "removing the files it names, reloading and listing, also while no file can be opened, with a set file that is a directory, and with set files older than "
            "the one before, with missing, duplicate, nested and long names, up to 1100 files, with and without "
            "load and unload functions; every load and unload event and the listing are compared with a model, and at the end memory "
            "is counted; non-trivial: distinct histories")
    min_tags = ("loaded", "unloaded", "kept", "duplicate", "missing", "unchanged", "set file gone", "no load", "no unload", "in place", "same time", "no newline", "not listed again", "letter case", "older", "refused", "refused then read", "directory", "hundreds")
    assumptions = ["a change is noticed by inode or modification time in seconds; blank lines are not judged"]

    extra_kinds, msan = ("msan",), .06

    def cases(self, r, n, bi):
        return [self.one(r) for _ in range(n)]

    def one(self, r):
        p, prog = bytearray(), []
        gone = True
        k = r.choice((2, 5, 12, 40)) if r.random() < .98 else 127

        both = r.random() < .3          # files whose names differ in letter case only

        def nm():
            x = r.random()
            return r.choice("fF" if both else "f") + "%d" % r.randrange(k) if x < .85 else "sub/f%d" % r.randrange(3) if x < .93 else r.choice(
                ("missing", "./f0", "x" * 300, "sub", "f0 ", " f0", "f" * 3000))
        many = 0
        if r.random() < .012:
            many = r.choice((254, 255, 256, 257, 300, 600, 1100))
            prog.append((12, many))
            p += struct.pack("<BH", 12, many)
        for i in range(r.randrange(k // 2, k)):
            prog.append((1, r.randrange(k) | (128 if both and r.random() < .5 else 0)))
            p += bytes(prog[-1])
        for step in range(r.randrange(2, 24)):
            o = r.choice((0, 0, 0, 1, 1, 2, 3, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11))
            if step < 1:
                o = 0
            if o in (0, 7, 8, 9):
                prev = [a for q, a in prog if q in (0, 7, 8, 9)]
                if prev and r.random() < .6:
                    l = [x for x in prev[-1][0] if r.random() < .8] + [nm() for _ in range(r.randrange(3))]
                    if r.random() < .5:
                        r.shuffle(l)
                else:
                    l = [nm() for _ in range(r.randrange(0, k))]
                if l and r.random() < .25:
                    l.insert(r.randrange(len(l) + 1), r.choice(l))
                if many and r.random() < .7:
                    bs = ["b%d" % x for x in range(many) if r.random() > r.choice((0, 0, .01))]
                    if r.random() < .3:
                        r.shuffle(bs)
                    l = [x for x in l if x[:1] != "b"] + bs + bs[:r.choice((0, 0, 3))]
                text = "".join(x + "\n" for x in l)
                if l and r.random() < .2:
                    text = text[:-1]
                if o in (7, 9) and gone:
                    o = 0
                hist = [q for q, _ in prog if q in (0, 3, 7, 8, 9, 10, 11)]
                if o == 8 and (gone or not hist or hist[-1] != 3):
                    o = 0                   # the inode might be a reused one
                gone = False
                prog.append((o, (l, text)))
                p += bytes([o]) + struct.pack("<I", len(text)) + text.encode()
            elif o in (1, 2):
                prog.append((o, r.randrange(k) | (128 if both and r.random() < .5 else 0)))
                p += bytes(prog[-1])
            elif o == 6:
                prog.append((o, r.randrange(3)))
                p += bytes(prog[-1])
            else:
                if o in (5, 11):
                    gone = True
                    if not any(q == 3 for q, _ in prog):
                        continue
                if o in (3, 10) and gone and not any(q == 3 for q, _ in prog):
                    continue
                prog.append((o, None))
                p.append(o)
        prog += [(4, None)]
        p.append(4)
        mode = r.choice((0, 0, 0, 0, 1, 2, 3))
        return Case(FILESET, [num(mode), bytes(p)], (mode, prog))

    def judge(self, c, rd):
        mode, prog = c.ctx
        t = self._t = set()
        if mode & 1:
            t.add("no load")
        if mode & 2:
            t.add("no unload")
        files, cur, have, changed, lost, started = {"sub"}, [], {}, True, 0, False
        there = True
        text, held = "", False

        def events(end):
            ev = []
            while True:
                x = rd.s()
                if x == end:
                    return ev
                if x not in ("L", "U", "E"):
                    raise IndexError("event %r" % x)
                ev.append((x, rd.s(), rd.n()))
        for step, (o, a) in enumerate(prog):
            w = "step %d: " % step
            if o in (0, 7, 8, 9):
                cur, text = a
                changed = there = True
                held = False
                if o in (7, 9):
                    t.add("in place" if o == 7 else "older")
                if o == 8:
                    t.add("same time")
                if text and text[-1] != "\n":
                    t.add("no newline")
            elif o == 1:
                files.add(NM(a))
                if a & 128:
                    t.add("letter case")
            elif o == 2:
                files.discard(NM(a))
            elif o == 12:
                files |= {"b%d" % x for x in range(a)}
                t.add("hundreds")
            elif o == 6:
                files.add("sub/f%d" % a)
            elif o in (5, 11):
                there = False
                if o == 11:
                    t.add("directory")
            elif o in (3, 10):
                started = True
                ev = events("R")
                if not there or not changed or o == 10:
                    t.add("unchanged" if there and not changed else "set file gone" if not there else "refused")
                    held = held or there and changed
                    if ev:
                        return "unchanged", w + "a reload of an unchanged set does %s" % ev[:5]
                    continue
                changed = False
                if held:
                    t.add("refused then read")
                want, dup = set(), set()
                for x in cur:
                    if x in files or x.startswith("./") and x[2:] in files:
                        if x in want:
                            t.add("duplicate")
                        want.add(x)
                    else:
                        t.add("missing")
                loads = {}
                for what, f, i in ev:
                    if what == "L":
                        if f in loads or f in have:
                            return "loaded twice", w + "%r is loaded although it is in the set" % f
                        if f not in want:
                            return "loaded in vain", w + "%r is loaded, the set is %s" % (f, sorted(want)[:20])
                        if i == 0:
                            return "user", w + "the load function does not see the user's pointer"
                        loads[f] = i
                        t.add("loaded")
                    elif what == "U":
                        if f not in have:
                            return "unloaded in vain", w + "%r is unloaded but not in the set" % f
                        if f in want:
                            return "unloaded too early", w + "%r is unloaded but still in the set" % f
                        if i != have[f]:
                            return "unload pointer", w + "%r is unloaded with pointer %d, expected %d" % (f, i, have[f])
                        del have[f]
                        t.add("unloaded")
                left = [f for f in have if f not in want]
                if mode & 2:
                    lost += len(left) if not mode & 1 else 0
                    for f in left:
                        del have[f]
                elif left:
                    return "not unloaded", w + "%s left the set without being unloaded" % left[:5]
                if have:
                    t.add("kept")
                for f in want:
                    if f not in have:
                        if not mode & 1 and f not in loads:
                            return "not loaded", w + "%r came into the set without being loaded" % f
                        have[f] = loads.get(f, 0)
            elif o == 4:
                if rd.s() != "G":
                    return "trace", w + "unexpected event"
                ev = events("g")
                got = [(f, i) for _, f, i in ev]
                if len(set(f for f, _ in got)) != len(got):
                    return "listed twice", w + "the listing is %s" % sorted(got)[:30]
                if [f for f, _ in got] != sorted(f for f, _ in got):
                    return "order", w + "the listing is %s" % [f for f, _ in got][:30]
                if dict(got) != (have if started else {}):
                    return "listing", w + "the listing is %s, expected %s" % (sorted(got)[:30], sorted(have.items())[:30])
                if have and changed:
                    t.add("not listed again")
        ev = events("D")
        if mode & 2:
            if ev:
                return "destroy", "events without functions"
        elif sorted((f, i) for _, f, i in ev) != sorted(have.items()) or any(x != "U" for x, _, _ in ev):
            return "destroy", "destruction gives %s, inside are %s" % (sorted(ev)[:20], sorted(have.items())[:20])
        if rd.n() != 1:
            return "destroy pointer", "the pointer is not cleared"
        live = rd.n()
        if live != lost:
            return "memory", "%d blocks stay allocated, expected %d" % (live, lost)
        if rd.left():
            return "surplus", "surplus events"

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C35()
