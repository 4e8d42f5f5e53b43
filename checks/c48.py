import struct
from .common import *
from .argvm import Got, blob, describe
from .argvm import case as command_line
from .c05 import CHECK as MEM
from .c30 import CHECK as HEAPS
from .c34 import CHECK as BUFS

WRAP = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "calloc", "realloc", "strdup", "strndup", "abort", "__assert_fail"))]
NO_MEMORY = 7       # wdns_res_malloc
OTHER, SAME, STOPPED, NOT_REACHED, LEFT = 0, 1, 10, 11, 12
NAMES = {OTHER: "other outcome", SAME: "no difference", STOPPED: "stopped", NOT_REACHED: "not reached", LEFT: "left"}


def fields(b):
    out, i = [], 0
    while i + 4 <= len(b):
        (l,) = struct.unpack_from("<I", b, i)
        out.append(b[i + 4:i + 4 + l])
        i += 4 + l
    return out


class C48(Check):
    prop = "C48"
    driver = None
    batch, quick, thorough = 60, 64, 2000
    technique = "fault injection: each allocation refused in turn (malloc, calloc, realloc, strdup and strndup interposed), a process per place, under ASan+UBSan, with a monitor that compares the outcome with the run in which nothing is refused"
    rule = ("cases of C05 (library), C43 (option parser), C30 and C34 (containers); for each the run without a failure counts its allocations, then "
            "up to 12 (parser: 30) of them, spread evenly, are refused in a process of their own, alone or with all later ones; non-trivial: distinct cases")
    min_tags = ("library", "command line", "heap", "buffer", "alone", "all later ones", "library stopped", "command line reported", "command line stopped",
                "heap stopped", "buffer stopped")
    assumptions = ["a program that gives up does so by an assertion, abort() or exit() with a code for failure",
                   "allocations which libc makes for itself (stdio, vasprintf) are not refused"]
    extra_kinds = ("argv", "hist")

    def build(self, b, kind):
        src, kw = {"asan": ("driver.c", {"lib": True}), "argv": ("argv.c", {"lib": False}),
                   "hist": ("hist.c", {"lib": False, "libmy": ["libmy/heap.c"]})}[kind]
        return b.harness("oom" + kind, "asan", ["oom.c"], extra=['-DVF_OOM_OF="%s"' % src], link=WRAP, **kw)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("argv", q, 40, 500000), ("hist", q // 2, 40, 1000000)]

    def cases(self, r, n, bi):
        out = []

        def add(op, args, places, ctx, *tags):
            g = r.randrange(2)
            out.append(Case(1, [num(op), num(g), num(places), num(r.randrange(1 << 30))] + list(args), ctx, [*tags, "all later ones" if g else "alone"]))

        if bi >= 1000000:
            for _ in range(n):
                h = r.random() < .5
                c = (HEAPS if h else BUFS).cases(r, 1, 0)[0]
                add(c.op, c.args, 12, None, "heap" if h else "buffer")
        elif bi >= 500000:
            for _ in range(n):
                c = command_line(r)
                add(1, blob(c), 30, c, "command line")
        else:
            for c in MEM.cases(r, n, bi):
                add(c.op, c.args, 12, None, "library")
        return out

    def judge(self, case, rd):
        base, n = fields(rd.b()), rd.n()
        argv = case.tag[0] == "command line"
        case.tag = case.tag[:2]
        while rd.left():
            at, e = rd.n(), rd.n()
            where = "with allocation %d of %d refused%s" % (at, n, ", and all later ones" if case.tag[1] != "alone" else "")
            if e in NAMES and e != OTHER:
                case.tag.append("%s %s" % (case.tag[0], NAMES[e]))
            if e == LEFT:
                return "exit", "the program is left with success %s; %s" % (where, describe(case.ctx))
            if e != OTHER:
                continue
            f = fields(rd.b())
            if argv:
                v = self.reported(case.ctx, base, f)
                if v:
                    return v[0], "%s %s; %s" % (v[1], where, describe(case.ctx))
            elif case.tag[0] != "library" or len(f) < 2 or len(f[0]) != 8 or int.from_bytes(f[0], "little") != NO_MEMORY or int.from_bytes(f[-2], "little"):
                return "outcome", "another outcome %s: %s instead of %s" % (where, f[:6], base[:6])
            case.tag.append(case.tag[0] + " reported")

    def reported(self, c, base, f):
        rd = Reader(f)
        g, b = Got(rd, c["table"]), Got(Reader(base), c["table"])
        live = rd.n()
        if g.rc == 0 and g.ent != b.ent:
            return "silent", "the parser succeeds without all values"
        if not g.text and c["set"]["stream"] == 1:
            return "message", "the parser says nothing"
        if live:
            return "leak", "%d blocks are left after argv_cleanup()" % live
        if int.from_bytes(f[-1], "little") != 1:
            return "files", "a file is left open"

    def tag(self, case, f):
        return case.tag


CHECK = C48()
