from .argvm import *


class C44(Check):
    prop, driver = "C44", DRIVER
    batch, quick, thorough = 500, 100, 3000
    technique = "differential monitor against a reference parser written from the documentation, over recorded values, verdicts, exits and messages"
    rule = ("well-formed tables of all 22 types with arrays, mandatory and optional arguments, exclusive groups and mandatory options; lines made "
            "for them (short, long, abbreviated, joined, with '=', with values far behind their options, negative numbers, '--', argument files, "
            "environment variables before and after), a part of them wrong; every setting; the verdict, exit code, every value and mark of use are compared; "
            "non-trivial: distinct cases for which the documentation decides")
    min_tags = ("accepted", "refused", "left with success", "left with error", "array", "mandatory", "group", "file", "environment", "abbreviated", "close value",
                "global", "twice", "malformed table", "long queue", "toggle")
    assumptions = ["numbers outside of their type, names which are both complete and the beginning of another, mixed OR and XOR groups, reading "
                   "arguments from the standard input, lines of 1023 octets and more and options that count as special table marks are not judged"]
    extra_kinds = ("ubsan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("ubsan", max(2, q // 4), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            wild = r.random() < .08
            c = case(r, wild)
            tags = ["malformed table"] * wild
            c["set"]["stream"] = int(r.random() < .9)
            if r.random() < .25:
                c["ask"].append((7,))
                tags.append("twice")
            opts = [e for e in c["table"] if e.short not in (OR, XOR)]
            for _ in range(r.choice((0, 1, 2))):
                e = r.choice(opts) if opts else None
                if r.random() < .5:
                    c["ask"].append((3, e.short if e and r.random() < .8 else r.choice(SHORTS)))
                else:
                    c["ask"].append((4, e.long if e and e.long else r.choice(WORDS)))
            op = 1
            if r.random() < .03 and not c["set"]["noenv"]:
                op = 2
                c["fresh"] = True
                c["global"] = r.choice((" ", ",", ":", "\t", ", ")).join(
                    r.choice(("close=off", "close=no", "close=on", "close=0", "close=disable", "lasttog=on", "lasttog=1", "lasttog=no", "env=none", "env=before", "env=after",
                              "multi=reject", "multi=accept", "error=long", "error=none", "usage=all", "usage=short", "close=maybe", "what", "lasttog=enable"))
                    for _ in range(r.randrange(1, 5)))
                tags.append("global")
            cs = Case(op, blob(c), c, tags)
            self.classify(c, tags)
            out.append(cs)
        out.sort(key=lambda c: -c.op)       # a fresh process cannot have parsed before
        return out

    def classify(self, c, tags):
        m = Model(c)
        try:
            rc, code = m.run()
        except DontCare:
            tags[:] = ["not judged"]
            return
        tags.append("left with success" if code == 0 else "left with error" if code > 0 else "accepted" if rc == 0 else "refused")
        t = c["table"]
        if any(e.array and e.val and len(e.val) > 1 for e in t):
            tags.append("array")
        if rc == 0 and code < 0:
            if any(e.short == MAND for e in t):
                tags.append("mandatory")
            if any(e.short in (OR, XOR) for e in t):
                tags.append("group")
            if c["files"] and any(b"argv-file" in x for x in c["argv"]):
                tags.append("file")
            if (c.get("env") or "").strip():
                tags.append("environment")
            if any(x.startswith(b"--") and len(x) > 2 and all(e.long is None or e.long.encode() != x[2:].split(b"=")[0] for e in t) for x in c["argv"]):
                tags.append("abbreviated")
            if any(x.startswith(b"-") and b"=" in x for x in c["argv"]):
                tags.append("close value")
        if c["argv"].count(b"--") > 1 and c["set"]["toggle"]:
            tags.append("toggle")
        if any(x.startswith(b"-") and len(x) > 30 for x in c["argv"]):
            tags.append("long queue")

    def nontrivial(self, case, res):
        return case.tag != ["not judged"]

    def judge(self, cs, rd):
        c = cs.ctx
        tab = c["table"]
        m = Model(c)
        try:
            want = m.run()
        except DontCare:
            return
        got = Got(rd, tab)
        prog = c["argv"][0].rsplit(b"/", 1)[-1][:256]
        bad = compare(c, m, want, got)
        if bad:
            return bad[0], bad[1] + "; " + describe(c)
        if not got.globals_ok:
            return "argv_argv", "argv_argv and argv_argc are not those given"
        if got.prog != prog:
            return "argv_program", "argv_program is %r for %r" % (got.prog[:300], c["argv"][0])
        for q in c["ask"]:
            if q[0] in (3, 4):
                n = rd.n()
                for e in tab:
                    if e.short == q[1] if q[0] == 3 else e.long is not None and e.long == q[1]:
                        w = int(e.used)
                        break
                else:
                    w = 0
                if n != w:
                    return "was used", "argv_%swas_used(%r) is %d; %s" % ("" if q[0] == 3 else "long_", q[1], n, describe(c))
            else:
                m.cleanup()
                for e, (_, _, vals) in zip(tab, read_values(rd, tab)):
                    if m.want(e) is not None and vals != m.want(e):
                        return "cleanup", "argv_cleanup() leaves %s in %s, expected %s; %s" % (vals[:5], entry_name(e), m.want(e)[:5], describe(c))
                rd.n()
                if want[1] >= 0:
                    return      # it has been left in the middle
                try:
                    want = m.run()
                except DontCare:
                    return
                bad = compare(c, m, want, Got(rd, tab))
                if bad:
                    return "again: " + bad[0], bad[1] + " (parsed for the second time); " + describe(c)


CHECK = C44()
