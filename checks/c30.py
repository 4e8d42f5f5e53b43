from .hist import *


class C30(Check):
    prop, driver = "C30", DRIVER
    batch, quick, thorough = 500, 120, 2000
    extra_kinds, msan = ("msan",), .04
    technique = "history monitor (multiset with an order) under ASan+UBSan"
    rule = ("sequences of push, pop, peek, replace and get with dense, sparse, equal, ascending and descending keys, growing to "
            "thousands of elements and drained to the end; every answer is checked against the set of elements inside; "
            "non-trivial: distinct histories")
    min_tags = ("push", "pop", "peek", "replace", "get", "pop empty", "peek empty", "replace empty", "get empty", "drained", "over 64", "over 1000",
                "equal keys")

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            key = keys(r)
            size = 3000 if i % 100 == 0 else 200 if i % 10 == 0 else 24
            prog, p, live = [], bytearray(), 0
            steps = r.randrange(1, size)
            bias = r.choice((.5, .6, .75, .9))
            for _ in range(steps):
                k = r.random()
                if k < bias:
                    o = 0
                elif k < bias + (1 - bias) * .4:
                    o = 1
                elif k < bias + (1 - bias) * .7:
                    o = 3
                elif k < bias + (1 - bias) * .85 or steps > 300:
                    o = 2
                else:
                    o = 4
                if o in (0, 3):
                    v = key() - r.choice((0, 0, 2 ** 31 // 2)) if r.random() < .2 else key()
                    v = max(-2 ** 31, min(2 ** 31 - 1, v))
                    prog.append((o, v))
                    p += bytes([o]) + k32(v)
                elif o == 4:
                    x = r.randrange(256)
                    prog.append((4, x))
                    p += bytes([4, x])
                else:
                    prog.append((o, 0))
                    p.append(o)
                live += (o == 0) - (o == 1 and live > 0)
            if r.random() < .7:
                for _ in range(live + r.randrange(1, 4)):
                    o = r.choice((1, 1, 1, 2)) if steps < 300 else 1
                    prog.append((o, 0))
                    p.append(o)
                if r.random() < .5:
                    for o in (2, 1, 3, 4):
                        prog.append((o, 7))
                        p += bytes([o]) + (k32(7) if o == 3 else b"\7" if o == 4 else b"")
            out.append(Case(HEAP, [bytes(p)], prog))
        return out

    def judge(self, c, rd):
        inside, key, ids = {}, {}, 0
        t = self._t = set()
        from heapq import heappush, heappop
        order = []                  # (key, id) with lazy deletion, for the smallest key

        def least():
            while order and order[0][1] not in inside:
                heappop(order)
            return order[0][0] if order else None

        def add(v):
            nonlocal ids
            if order and v == order[0][0]:
                t.add("equal keys")
            key[ids] = v
            inside[ids] = v
            heappush(order, (v, ids))
            ids += 1

        for step, (o, v) in enumerate(c.ctx):
            w = "step %d: " % step
            if o == 0:
                t.add("push")
                rd.n()
                add(v)
            elif o in (1, 2, 3):
                a = rd.n()
                nm = {1: "pop", 2: "peek", 3: "replace"}[o]
                t.add(nm)
                if not inside:
                    t.add(nm + " empty")
                    if o == 3:
                        key[ids] = v
                        ids += 1
                    if a != NONE:
                        return nm + "-empty", w + "an empty heap gives element %d" % a
                else:
                    if a == NONE:
                        return nm + "-nothing", w + "nothing although the heap holds %d elements" % len(inside)
                    if a not in inside:
                        return nm + "-foreign", w + "element %d is not in the heap" % a
                    if inside[a] != least():
                        return nm + "-not-least", w + "key %d, but the smallest inside is %d" % (inside[a], least())
                    if o != 2:
                        del inside[a]
                    if o == 1 and not inside:
                        t.add("drained")
                    if o == 3:
                        add(v)
            else:
                t.add("get" if inside else "get empty")
                got = [rd.n() for _ in inside]
                if sorted(got) != sorted(inside):
                    return "contents", w + "indices give %s, inside are %s" % (sorted(got)[:40], sorted(inside)[:40])
                if got and inside[got[0]] != least():
                    return "root", w + "index 0 has key %d, the smallest is %d" % (inside[got[0]], least())
                if [rd.n() for _ in range(3)] != [NONE] * 3:
                    return "out-of-range", w + "an index out of range gives an element"
            s = rd.n()
            if s != len(inside):
                return "size", w + "size %d, inside are %d" % (s, len(inside))
            if s > 64:
                t.add("over 64")
            if s > 1000:
                t.add("over 1000")
        if rd.n() != 1:
            return "destroy", "the pointer is not cleared"
        if rd.left():
            return "surplus", "surplus answers"

    def tag(self, c, f):
        return sorted(self._t)


CHECK = C30()
