import re
from .argvm import *


def flat(b):
    return re.sub(rb"\s+", b" ", b).strip()


class C45(Check):
    prop, driver = "C45", DRIVER
    batch, quick, thorough = 500, 80, 2600
    technique = "monitor of the printed text against the values, the arguments and the table it stands for, under ASan+UBSan and MSan"
    rule = ("values of all 22 types, alone and in arrays, shown in buffers of every size from 1 and by --argv-display; arguments copied into buffers of "
            "every size; short, long and complete usage texts of tables with and without names, labels and comments; non-trivial: distinct cases")
    min_tags = ("value", "value cut", "array value", "copy", "copy cut", "usage short", "usage long", "usage all", "display", "type", "no stream", "special characters",
                "no size", "flags on two lines", "whole line")
    assumptions = ["labels, comments and names are printable; short usage is compared for tables whose options with an argument have a short name; long usage is "
                   "compared whole where every part has room in its column"]
    extra_kinds = ("msan",)

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", max(2, q // 4), self.batch, 500000)]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            c = case(r)
            if r.random() < .06:        # flags for more than a line
                sh = list(SHORTS)
                r.shuffle(sh)
                c["table"] = [entry(r, x, None, r.choice(NOARG)) for x in sh[:r.randrange(40, 69)]]
                if not c.get("env"):
                    c["argv"][0] = b"a-program-" * r.randrange(3) + b"x" * r.randrange(1, 30)
            st = c["set"]
            tab = c["table"]
            tags = []
            for e in tab:       # values which no argument gives
                if e.var and not e.array and e.t in FMT and e.t not in (CHAR_P, INCR) and r.random() < .7:
                    f = FMT[e.t]
                    n8 = SIZEOF[e.t] * 8
                    v = r.choice((0, 1, -1, 1 << (n8 - 1), (1 << (n8 - 1)) - 1, r.randrange(1 << n8), r.randrange(1 << r.randrange(1, n8 + 1)),
                                  r.randrange(1 << max(1, n8 - 30)) << 30 if n8 > 30 else 8, r.randrange(1, 100) << r.choice((10, 20, 30)))) % (1 << n8)
                    e.init = v.to_bytes(SIZEOF[e.t], "little")
                    if e.t in (FLOAT, DOUBLE):
                        e.init = struct.pack(f, r.choice((0.0, 1.5, -3.25, 1e10, 123456.789, r.uniform(-1e6, 1e6), 1e-9, 1e300 if e.t == DOUBLE else 1e30)))
                elif e.t == CHAR_P and not e.array and r.random() < .5:
                    e.init = value(r, CHAR_P)
            k = r.random()
            if k < .25:
                st["table"] = 2
            elif k < .4:
                st["interactive"] = 1
                c["argv"].append(b"--argv-display")
            if st["stream"] == 0:
                tags.append("no stream")
            can = [i for i, e in enumerate(tab) if e.var and e.t in FMT]
            for _ in range(r.choice((1, 3, 6))):
                k = r.random()
                if k < .55 and can:
                    i = r.choice(can)
                    c["ask"].append((1, i, r.choice((1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 40, 80, 400, r.randrange(1, 60)))))
                elif k < .75:
                    c["ask"].append((2, r.choice((0, 1, 2, 3, 5, 10, 20, 50, 5000, sum(len(x) + 1 for x in c["argv"][1:]), 1 + sum(len(x) + 1 for x in c["argv"][1:]),
                                                  r.randrange(1, 2 + sum(len(x) + 1 for x in c["argv"][1:]))))))
                elif k < .95:
                    w = r.choice((1, 2, 3, 6, 0, 1, 2))
                    c["ask"].append((5, w))
                    tags += {1: ["usage short"], 2: ["usage long"], 6: ["usage all"]}.get(w, [])
                else:
                    c["ask"].append((6, r.choice((r.randrange(0, 26), r.randrange(1, 23) | ARRAY, r.randrange(64)))))
                    tags.append("type")
            out.append(Case(1, blob(c), c, tags))
        return out

    def judge(self, cs, rd):
        c = cs.ctx
        tab = c["table"]
        m = Model(c)
        prog, left = b"Unknown", False
        parsed = c["set"]["table"] != 2
        if parsed:
            try:
                want = m.run()
            except DontCare:
                cs.tag = ["not judged"]
                return
            got = Got(rd, tab)
            prog, left = got.prog, want[1] >= 0
            if compare(c, m, want, got):
                return      # the parser itself is not judged here
            if want[1] == 0 and c["set"]["interactive"] and c["set"]["stream"] == 1:
                bad = self.display(m, got.text) if self.shows(c) else None
                if bad:
                    return bad
                if self.shows(c):
                    cs.tag.append("display")
        else:
            read_values(rd, tab)
        for q in c["ask"]:
            if q[0] == 1:
                n, s = rd.n(), rd.b()
                w = show_entry(tab[q[1]], q[2])
                e = tab[q[1]]
                cs.tag.append("value")
                if len(w) != len(show_entry(e, 10000)):
                    cs.tag.append("value cut")
                if e.array:
                    cs.tag.append("array value")
                if b"\\" in w:
                    cs.tag.append("special characters")
                if s != w or n != len(w):
                    return "value", "type %d%s, value %r in a buffer of %d octets: %r (%d), expected %r" % (e.t, "[]" if e.array else "", e.val, q[2], s, n, w)
            elif q[0] == 2:
                n, s = rd.n(), rd.b()
                full = b" ".join(c["argv"][1:]) if parsed else b""
                cs.tag.append("copy")
                if q[1] == 0:
                    cs.tag.append("no size")
                elif q[1] <= len(full):
                    cs.tag.append("copy cut")
                if left:
                    continue        # the program has been left in the middle
                if n != 0 or s != (full[:q[1] - 1] if q[1] else b""):
                    return "copy", "arguments %r in a buffer of %d octets: %r (%d)" % (full[:200], q[1], s[:200], n)
            elif q[0] == 5:
                n, t = rd.n(), rd.b()
                if n != 0:
                    return "usage", "argv_usage() fails"
                if c["set"]["stream"] != 1:
                    continue
                w = q[1] if q[1] in (1, 2, 6) else c["set"]["usage"]
                bad = self.usage(tab, prog if parsed else None, w, t, cs)
                if bad:
                    return "usage %d" % w, bad + ": %r" % t[:1500]
            elif q[0] == 6:
                nm, sz, ds = rd.b(), rd.n(), rd.b()
                t = q[1] & 0x3f
                if sz != SIZEOF.get(t, 0) or not nm or not ds or (t not in FMT) != (nm == b"(unknown type)"):
                    return "type", "type %d: %r of %d octets" % (q[1], nm, sz)

    def shows(self, c):
        """Is --argv-display what ended the parse?"""
        allt = c["argv"] + [x for f in c["files"] for x in f.split(b"\n")] + [x.encode("latin1") for x in (c.get("env") or "").split()]
        other = [x for x in allt if (x.startswith(b"--") and len(x) > 2 and any(u.startswith(x[2:].split(b"=")[0].decode("latin1")) for u in USAGE) and x != b"--argv-display")
                 or b"?" in x]
        if other or any(e.long and (e.long.startswith("argv-display")) for e in c["table"]):
            return False
        return True

    def display(self, m, t):
        # what was said before it (mistakes) comes first; one line each follows
        ent = [e for e in m.tab if e.short not in (OR, XOR)]
        lines = t.split(b"\n")[:-1]
        if len(lines) < len(ent):
            return "display", "%d lines for %d entries: %r" % (len(lines), len(ent), t[:500])
        for e, l in zip(ent, lines[len(lines) - len(ent):]):
            if e.array:
                w = b",".join(show(e.t, v, 256) for v in e.val) if e.val else b"no entries"
            else:
                w = show(e.t, e.val, 256)
            if e.short not in (0, MAND, MAYBE) and not l.startswith(b"[-%c" % e.short) or e.short == 0 and e.long and not l.startswith(b"--" + e.long.encode()[:20]):
                return "display", "%s is shown as %r" % (entry_name(e), l)
            if not l.endswith(w) or l[:len(l) - len(w)].strip() == b"" and e.short not in (MAND,):
                return "display", "%s (type %d) with the value %r is shown as %r" % (entry_name(e), e.t, e.val, l)

    def full_line(self, e):
        """The line of an entry whose parts fit their columns, or None."""
        if e.t not in FMT:
            return None
        lab = b""
        if e.has_arg:
            lab = b"yes|no" if e.t in (BOOL_ARG, BOOL_INT_ARG) else e.label.encode() if e.label is not None else b"??"
        lg = e.long.encode() if e.long else None
        if e.long == "" or lab == b"" and e.has_arg:
            return None
        # what does not fit its column is cut, a "yes|no" excepted
        fix = e.t in (BOOL_ARG, BOOL_INT_ARG)
        if e.short == 0:
            if lg is None:
                return None
            left = b"[--" + lg[:30]
            if e.has_arg:
                left += b" "
                if 33 - len(left) < 1 and not fix:
                    return None
                left += lab if fix else lab[:33 - len(left)]
            left += b"]"
        else:
            if e.short == MAND:
                left = lab if fix else lab[:34]
            elif e.short == MAYBE:
                left = b"[" + (lab if fix else lab[:16]) + b"]"
            else:
                left = b"[-%c" % e.short + (b" " + (lab if fix else lab[:13]) if e.has_arg else b"") + b"]"
            left = left.ljust(18)
            if lg is not None:
                room = 34 - len(left) - 6
                if room < 1:
                    return None
                left += b"or --" + lg[:room]
        if e.comment is not None:
            left = left.ljust(34)
            if len(left) > 78:
                return None
            left += e.comment.encode()[:79 - len(left)]
        return left

    def short_text(self, ent, prog):
        """The short usage: flags, then the others, broken at the screen's width."""
        out = [b"Usage: " + prog]

        def put(tok, room=0):
            # a blank goes before, unless a line begins
            if len(out[-1]) + 1 + len(tok) + room > 79:
                out.append(b"       " + tok)
            else:
                out[-1] += b" " + tok

        fl = [e for e in ent if not e.has_arg and e.short]
        for i, e in enumerate(fl):
            if i == 0:
                put(b"[-", 2)
            if len(out[-1]) + 1 > 78:
                out[-1] += b"]"
                out.append(b"       [-")
            out[-1] += b"%c" % e.short
        if fl:
            out[-1] += b"]"
        for e in ent:
            if not e.has_arg:
                continue
            lab = (e.label if e.label is not None else "yes|no" if e.t in (BOOL_ARG, BOOL_INT_ARG) else "??").encode()
            if e.short == MAND:
                put(lab)
            elif e.short == MAYBE:
                put(b"[" + lab + b"]")
            else:
                put(b"[-%c" % e.short)
                put(lab + b"]")
        return b"\n".join(out) + b"\n"

    def usage(self, tab, prog, which, t, cs):
        ent = [e for e in tab if e.short not in (OR, XOR)]
        if which in (2, 6):
            lines = t.split(b"\n")
            if not lines[0].startswith(b"Usage: ") or prog is not None and lines[0] != b"Usage: " + prog:
                return "the first line is %r" % lines[0]
            for e, l in zip(ent, lines[1:]):
                w = self.full_line(e)
                if w is not None:
                    cs.tag.append("whole line")
                    if l != w:
                        return "the line is %r, expected %r" % (l, w)
                if e.short not in (0, MAND, MAYBE) and b"-%c" % e.short not in l:
                    return "no -%c in %r" % (e.short, l)
                if e.short == 0 and (not l.strip().startswith(b"[") or b"]" not in l):
                    return "an option without a short name is shown as %r" % l
                if e.long and b"--" + e.long[:8].encode() not in l:
                    return "no --%s in %r" % (e.long, l)
                if e.comment and e.comment[:20].encode() not in l:
                    return "no %r in %r" % (e.comment[:20], l)
                if e.label and e.has_arg and e.t not in (BOOL_ARG, BOOL_INT_ARG) and e.label[:6].encode() not in l:
                    return "no %r in %r" % (e.label[:6], l)
            if which == 2 and len(lines) != len(ent) + 2:
                return "%d lines for %d entries" % (len(lines), len(ent))
            if which == 6 and not all(b"--" + u.encode() in t for u in USAGE):
                return "the library's own options are missing"
        elif which in (1, 5):
            if any(e.short == 0 and e.has_arg for e in ent):
                return
            if not t.startswith(b"Usage: ") or not t.endswith(b"\n"):
                return "no usage text"
            head = b"Usage: " + (prog if prog is not None else b"")
            if not t.startswith(head):
                return "it does not begin with the name of the program"
            body = flat(t)
            if prog is not None:
                body = flat(t[len(head):])
                want = b""
                fl = bytes(e.short for e in ent if not e.has_arg and e.short)
                for e in ent:
                    if not e.has_arg:
                        continue
                    lab = (e.label if e.label is not None else "yes|no" if e.t in (BOOL_ARG, BOOL_INT_ARG) else "??").encode()
                    want += b" " + (lab if e.short == MAND else b"[" + lab + b"]" if e.short == MAYBE else b"[-%c " % e.short + lab + b"]")
                if which == 5:
                    want += b" Use the '--usage' argument for more assistance."
                want = flat(want)
                if not body.endswith(want):
                    return "expected at the end: %r" % want
                rest = body[:len(body) - len(want)].strip().replace(b"] [-", b"")
                w = self.short_text(ent, prog) + (b"       Use the '--usage' argument for more assistance.\n" if which == 5 else b"")
                if t != w:
                    return "expected %r" % w
                if re.match(rb"\s*\[-[^\] ]*\]\n *\[-[^\] ]*\]", t[len(head):]):
                    cs.tag.append("flags on two lines")
                if rest != (b"[-" + fl + b"]" if fl else b""):
                    return "the flags %r are shown as %r" % (fl, rest)
        elif which == 4:
            if b"--usage" not in t:
                return "no reference to --usage"


CHECK = C45()
