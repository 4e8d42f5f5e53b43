import bisect
from .hist import *


class C39(Check):
    prop, driver = "C39", DRIVER
    batch, quick, thorough = 400, 150, 2500
    extra_kinds, msan = ("msan",), .04
    technique = "history monitor against sequence and ordered-map models, with invariant probes, under ASan+UBSan"
    rule = ("sequences of every list operation over two lists and of insert, remove, find, find-next, ends and full traversals over "
            "red-black and splay trees with dense, sparse, ascending and descending keys; after every list step both lists are "
            "walked in both directions, after every tree step the red-black invariants are probed; non-trivial: distinct histories")
    LOPS = ("prepend", "append", "insertbefore", "insertafter", "unlink", "appendlist", "enqueue")
    TOPS = ("insert", "remove", "find", "nfind", "ends", "traverse")
    min_tags = LOPS + tuple("rb " + x for x in TOPS) + tuple("splay " + x for x in TOPS if x != "nfind") + (
        "rb duplicate", "splay duplicate", "rb absent", "splay absent", "rb emptied", "splay emptied", "rb over 256")

    def cases(self, r, n, bi):
        return [self.lst(r) if r.random() < .4 else self.tree(r, i) for i in range(n)]

    def lst(self, r):
        l, p, prog = [[], []], bytearray(), []
        free = set(range(256)) if r.random() < .5 else set(range(6))
        for _ in range(r.randrange(1, 50)):
            w = r.randrange(2)
            o = r.randrange(7)
            a = b = 0
            if o in (0, 1, 6):
                if not free:
                    continue
                a = r.choice(sorted(free))
            elif o in (2, 3):
                if not free or not l[w]:
                    continue
                a, b = r.choice(sorted(free)), r.choice(l[w])
            elif o == 4:
                if not l[w]:
                    continue
                a = r.choice((l[w][0], l[w][-1], r.choice(l[w])))
            if o == 0:
                l[w].insert(0, a)
            elif o in (1, 6):
                l[w].append(a)
            elif o == 2:
                l[w].insert(l[w].index(b), a)
            elif o == 3:
                l[w].insert(l[w].index(b) + 1, a)
            elif o == 4:
                l[w].remove(a)
                free.add(a)
            elif o == 5:
                l[w] += l[1 - w]
                l[1 - w] = []
            if o != 4:
                free.discard(a) if o != 5 else None
            p += bytes([o | w << 7, a, b])
            prog.append((o, w, a, [list(l[0]), list(l[1])], a not in free))
        if not prog:
            return self.lst(r)
        return Case(LIST, [bytes(p)], prog)

    def tree(self, r, i):
        key = keys(r)
        rb = r.random() < .6
        p, prog, have = bytearray(), [], []
        steps = r.randrange(1, 700 if i % 20 == 0 else 60)
        grow = r.choice((.3, .5, .7))
        for _ in range(steps):
            k = r.random()
            if k < grow:
                o = 0
            elif k < .85:
                o = 1
            else:
                o = r.choice((2, 2, 3, 3, 4, 5) if rb else (2, 2, 4, 5))
            v = 0
            if o < 4:
                v = key()
                if o and have and r.random() < .7:
                    v = r.choice(have)
                    if r.random() < .2:
                        v = (v + r.choice((-1, 1))) % 2 ** 32
                if o == 0:
                    have.append(v)
                p += bytes([o]) + k32(v)
            else:
                p.append(o)
            prog.append((o, v))
            if len(have) > 4000:
                break
        if r.random() < .6:
            ks = list(have)
            m = r.random()
            ks.sort() if m < .3 else r.shuffle(ks) if m < .8 else None
            for v in ks:
                prog.append((1, v))
                p += b"\1" + k32(v)
        prog += [(5, 0), (4, 0)]
        p += b"\5\4"
        return Case(TREE, [num(int(rb)), bytes(p)], (rb, prog))

    def judge(self, c, rd):
        self._t = set()
        return (self.judge_list if c.op == LIST else self.judge_tree)(c, rd)

    def judge_list(self, c, rd):
        for step, (o, w, a, l, linked) in enumerate(c.ctx):
            nm = self.LOPS[o]
            self._t.add(nm)
            where = "step %d (%s): " % (step, nm)
            x = rd.n()
            if o != 5 and x != int(linked):
                return "linked after " + nm, where + "element %d linked: %d, expected %d" % (a, x, linked)
            for k in (0, 1):
                fw = [rd.n() for _ in range(rd.n())]
                bw = [rd.n() for _ in range(rd.n())]
                e = rd.n()
                if fw != l[k]:
                    return "order after " + nm, where + "list %d forwards %s, expected %s" % (k, fw[:50], l[k][:50])
                if bw != l[k][::-1]:
                    return "backwards after " + nm, where + "list %d backwards %s, expected %s" % (k, bw[:50], l[k][::-1][:50])
                if e != int(not l[k]):
                    return "empty after " + nm, where + "list %d empty: %d" % (k, e)
        if rd.left():
            return "surplus", "surplus answers"

    def judge_tree(self, c, rd):
        rb, prog = c.ctx
        kd = "rb" if rb else "splay"
        d, ids, sk = {}, 0, []
        for step, (o, v) in enumerate(prog):
            nm = "%s %s" % (kd, self.TOPS[o])
            self._t.add(nm)
            where = "step %d (%s %d): " % (step, nm, v)
            if o == 0:
                a = rd.n()
                want = d.get(v, NONE)
                if want == NONE:
                    d[v] = ids
                    bisect.insort(sk, v)
                else:
                    self._t.add(kd + " duplicate")
                ids += 1
                # an insertion that finds an equal element gives that one and changes nothing
                if a != want:
                    return nm, where + "gives %d, expected %d" % (a, want)
            elif o == 1:
                a = rd.n()
                want = d.get(v, NONE)
                if a != want:
                    return nm, where + "find gives %d, expected %d" % (a, want)
                if want == NONE:
                    self._t.add(kd + " absent")
                else:
                    if rd.n() != want:
                        return nm, where + "removed another element"
                    del d[v]
                    del sk[bisect.bisect_left(sk, v)]
                    if not d:
                        self._t.add(kd + " emptied")
            elif o == 2:
                a = rd.n()
                if a != d.get(v, NONE):
                    return nm, where + "gives %d, expected %d" % (a, d.get(v, NONE))
            elif o == 3:
                a = rd.n()
                j = bisect.bisect_left(sk, v)
                want = d[sk[j]] if j < len(sk) else NONE
                if a != want:
                    return nm, where + "gives %d, expected %d" % (a, want)
            elif o == 4:
                want = [d[sk[0]], d[sk[-1]]] if sk else [NONE, NONE]
                got = [rd.n(), rd.n()]
                if got != want:
                    return nm, where + "gives %s, expected %s" % (got, want)
            else:
                for way in (1, -1)[:1 + rb]:
                    k = rd.n()
                    got = [rd.n() for _ in range(k)]
                    if got != [d[x] for x in sk[::way]]:
                        return nm, where + "visits %s..., expected %s..." % (got[:30], [d[x] for x in sk[::way]][:30])
            h, e = rd.n(), rd.n()
            if e != int(not d):
                return kd + " empty", where + "empty: %d with %d elements" % (e, len(d))
            if rb:
                if h >= 2 ** 63:
                    return "rb invariant", where + "no red-black tree any more"
                if h > 2 * (len(d) + 1).bit_length():
                    return "rb height", where + "height %d with %d elements" % (h, len(d))
                if len(d) > 256:
                    self._t.add("rb over 256")
        if rd.left():
            return "surplus", "surplus answers"

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C39()
