from .argvm import *


class C43(Check):
    prop, driver = "C43", DRIVER
    batch, quick, thorough = 500, 80, 3000
    technique = "ASan+UBSan and MSan under random, malformed and hostile tables, command lines, argument files and environments; monitors for leaks, for changed arguments and for what cleaning up leaves"
    rule = ("tables of 0 to 60 entries of all 22 types, well formed or not, with lines, files and environment texts made for them or of "
            "noise; every setting of the library; parsed, parsed again, shown, cleaned up twice; non-trivial: distinct cases")
    min_tags = ("well formed", "malformed table", "noise", "file", "environment", "fresh process", "twice", "display", "accepted", "refused", "left")
    assumptions = ["argument files do not name each other in a circle; a table ends in ARGV_LAST and its variables are of the types it says; what exit() leaves allocated is not judged"]
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(2, q // 4), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            wild = r.random() < .4
            c = case(r, wild)
            tags = ["malformed table" if wild else "well formed"]
            if r.random() < .3:
                tags.append("noise")
                for _ in range(r.randrange(1, 6)):
                    x = r.choice((b"-" + bytes(r.randrange(1, 256) for _ in range(r.randrange(1, 8))), b"--" + bytes(r.randrange(1, 128) for _ in range(r.randrange(8))),
                                  bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 300))), b"-" * r.randrange(1, 5), b"=" * 3, b"9" * r.randrange(1, 400),
                                  b"--argv-file=" + bytes(r.randrange(97, 123) for _ in range(5)), b"-9999999999999999999999", b"--a", b"--argv", b"1e400"))
                    if b"argv-file=-".startswith(x[2:]) and x.startswith(b"--") or x == b"-":
                        continue
                    c["argv"].insert(r.randrange(1, len(c["argv"]) + 1), x)
            if r.random() < .05:
                c["argv"] = r.choice(([], [None], [b"prog"], [b""]))
            if r.random() < .1:
                c["files"] = [b"".join(bytes([r.choice((10, 32, 45, 61, r.randrange(1, 256)))]) for _ in range(r.choice((0, 1, 50, 3000)))).replace(b"f", b"g")
                              .replace(b"argv-", b"") for _ in c["files"]]
            if r.random() < .04:
                c["set"]["table"] = 1
            for _ in range(r.choice((0, 1, 3))):
                k = r.random()
                tab = c["table"]
                vs = [i for i, e in enumerate(tab) if e.var and e.t in FMT]
                if k < .3 and vs and c["set"]["table"] == 0:
                    c["ask"].append((1, r.choice(vs), r.choice((1, 2, 3, 5, 10, 20, 40, 200))))
                elif k < .45:
                    c["ask"].append((2, r.choice((0, 1, 2, 3, 10, 50, 1000))))
                elif k < .55:
                    c["ask"].append((3, r.randrange(255)))
                elif k < .65:
                    c["ask"].append((4, r.choice(WORDS)))
                elif k < .8:
                    c["ask"].append((5, r.randrange(9)))
                elif k < .9:
                    c["ask"].append((6, r.choice((r.randrange(64), r.randrange(1 << 16)))))
                elif c["set"]["table"] == 0:
                    c["ask"].append((7,))
                    tags.append("twice")
            if c["argv"] and any(x and b"argv-display"[:3] in x for x in c["argv"]):
                tags.append("display")
            if c["files"]:
                tags.append("file")
            if c.get("env"):
                tags.append("environment")
            op = 1
            if r.random() < .04:
                op = 2
                c["fresh"] = True
                c["set"]["stream"] = r.choice((0, 1, 2, 2))
                c["global"] = None if r.random() < .4 else r.choice((" ", ",", ":")).join(
                    r.choice(("close=", "lasttog=", "env=", "error=", "multi=", "usage=", "", "x=", "close")) +
                    r.choice(("on", "off", "yes", "no", "0", "1", "none", "before", "after", "see", "short", "shortrem", "long", "all", "accept", "reject", "enable",
                              "disable", "", "bad")) for _ in range(r.randrange(1, 6)))
                tags.append("fresh process")
            out.append(Case(op, blob(c), c, tags))
        out.sort(key=lambda c: -c.op)       # a fresh process cannot have parsed before
        return out

    def tag(self, c, f):
        g = Got(R.Reader(f), c.ctx["table"])
        return c.tag + ["left" if g.code >= 0 else "accepted" if g.rc == 0 else "refused"]

    def judge(self, cs, rd):
        c = cs.ctx
        tab = c["table"]
        left = False
        g = Got(rd, tab)
        if g.rc not in (0, -1):
            return "return", "the parser returns %d" % g.rc
        left |= g.code >= 0
        if g.code >= 0 and not c["set"]["interactive"]:
            return "exit", "the parser leaves a program which is not interactive"
        for q in c["ask"]:
            if q[0] == 1:
                n, s = rd.n(), rd.b()
                if n != len(s) or len(s) >= q[2]:
                    return "value text", "argv_value_string() returns %d for %d octets in a buffer of %d" % (n, len(s), q[2])
            elif q[0] == 2:
                if rd.n() != 0 or len(rd.b()) >= max(q[1], 1):
                    return "copy", "argv_copy_args() into %d octets" % q[1]
            elif q[0] in (3, 4):
                if rd.n() not in (0, 1):
                    return "was used", "argv_was_used() returns neither 0 nor 1"
            elif q[0] == 5:
                if rd.n() != 0:
                    return "usage", "argv_usage() fails"
                rd.b()
            elif q[0] == 6:
                rd.b(), rd.n(), rd.b()
            else:
                read_values(rd, tab)
                live = rd.n()
                if live and not left:
                    return "leak", "%d blocks are left after argv_cleanup(); %s" % (live - (1 << 64) if live >> 63 else live, describe(c))
                g = Got(rd, tab)
                left |= g.code >= 0
        live = rd.n()
        if live and not left:
            return "leak", "%d blocks are left after argv_cleanup(); %s" % (live - (1 << 64) if live >> 63 else live, describe(c))
        for e, (_, _, vals) in zip(tab, read_values(rd, tab)):
            if e.array and vals and c["set"]["table"] == 0:
                return "array", "an array has entries after argv_cleanup()"
        if not rd.n() and not left:
            return "arguments", "the arguments have been changed; %s" % describe(c)
        if not rd.n() and not left:
            return "files", "a file is left open; %s" % describe(c)


CHECK = C43()
