import gzip
from vf import runner as R

num, Case, Check, NULL = R.num, R.Case, R.Check, R.NULL
DRIVER = ("zone", ["zone.c", "h_zone.c"], {"lib": False})
LAB = ("a", "b", "www", "mail", "x-1", "_dns", "LONG" * 12)
DOM = ("example.", "example.com.", "a.b.c.d.e.", "X.", ".", "0.0.127.in-addr.arpa.")


class Bad(Exception):
    pass


def absolute(t, origin):
    o = origin if origin is not None else "."
    if t == "@":
        return o
    if len(t) > 250:
        raise Bad
    if t[-1] == ".":
        return t
    s = t + "." + (o if o != "." else "")
    if len(s) > 255:
        raise Bad
    return s


def number(t):
    if not t.isdigit() or len(t) > 10 or int(t) >= 1 << 32:
        raise Bad
    return int(t)


class Zone:
    """The zone language of the stand-in, and what a reader of it has to deliver."""

    def __init__(self, data):
        self.lines = data.split(b"\n")
        self.at = 0
        self.ttl, self.origin, self.prev = 0, None, None

    def next(self):
        """A record, None at the end, raises Bad at a line that is none."""
        while self.at < len(self.lines):
            ln = self.lines[self.at].decode("latin-1")
            self.at += 1
            ln = ln.split("\0")[0].split(";")[0]
            if not ln.strip(" \t\r"):
                continue
            tok = [x for x in ln.replace("\t", " ").replace("\r", " ").split(" ") if x]
            if ln[:7] == "$ORIGIN" and ln[7:8] in (" ", "\t", "\r"):
                self.origin = None
                if len(tok) < 2 or not tok[1].endswith(".") or len(tok[1]) > 200:
                    raise Bad
                self.origin = tok[1]
                continue
            if ln[:4] == "$TTL" and ln[4:5] in (" ", "\t", "\r"):
                try:
                    self.ttl = number(tok[1])
                except (Bad, IndexError):
                    pass
                continue
            if ln[:8] == "$INCLUDE":
                raise Bad
            if ln[0] in " \t":
                tok = [None] + tok
            return self.rr(tok)
        return None

    def rr(self, tok):
        if len(tok) < 3:
            raise Bad
        ttl = self.ttl or 3600
        if tok[0] is None:
            owner = self.prev if self.prev is not None else absolute("@", self.origin)
        else:
            owner = absolute(tok[0], self.origin)
        i = 1
        try:
            ttl = number(tok[i])
            i += 1
        except Bad:
            pass
        if i < len(tok) and tok[i] == "IN":
            i += 1
        if i >= len(tok):
            raise Bad
        t, a = tok[i], tok[i + 1:]
        if t == "A" and len(a) == 1:
            q = a[0].split(".")
            if len(q) != 4 or not all(x.isdigit() and len(x) <= 3 and int(x) < 256 for x in q):
                raise Bad
            f, ty = [bytes(int(x) for x in q)], 1
        elif t == "NS" and len(a) == 1:
            f, ty = [absolute(a[0], self.origin).encode("latin-1")], 2
        elif t == "TXT" and len(a) == 1:
            f, ty = [a[0].encode("latin-1")], 16
        elif t == "SOA" and len(a) == 7:
            f, ty = [absolute(x, self.origin).encode("latin-1") for x in a[:2]] + [number(x).to_bytes(4, "big") for x in a[2:]], 6
        else:
            raise Bad
        self.prev = owner
        return owner.encode("latin-1"), ttl, ty, f


def line(r, p):
    """One line: a record mostly."""
    x = r.random()
    if x < .06:
        return r.choice(("", "   ", "; comment", "\t; more", "\r"))
    if x < .10:
        return "$ORIGIN" + r.choice((" ", "\t")) + r.choice(DOM)
    if x < .14:
        return "$TTL %d" % r.choice((1, 60, 86400, 4294967295, r.randrange(1 << 32)))
    if x < .14 + p:
        return r.choice(("$INCLUDE other", "www", "www IN", "www IN A 1.2.3", "www IN A 1.2.3.256", "@ BOGUS x", "$ORIGIN relative", "$ORIGIN ", "www SOA a b 1 2 3 4",
                         "www " + "y" * 260 + " TXT z", "z" * 255 + " TXT z", "\xff\xfe", "www 99999999999 A 1.2.3.4"))
    own = r.choice(LAB) if r.random() < .5 else r.choice(("@", "", "", r.choice(LAB) + "." + r.choice(DOM[:2]), r.choice(DOM)))
    s = own + r.choice((" ", "\t", "  "))
    if r.random() < .4:
        s += "%d " % r.choice((0, 1, 300, 4294967295))
    if r.random() < .5:
        s += "IN "
    y = r.random()
    if y < .4:
        s += "A %d.%d.%d.%d" % tuple(r.randrange(256) for _ in range(4))
    elif y < .7:
        s += "NS " + r.choice(("@", r.choice(LAB), r.choice(LAB) + "." + r.choice(DOM[:2])))
    else:
        s += "TXT " + "".join(chr(r.choice((r.randrange(33, 59), r.randrange(60, 127), r.randrange(161, 256)))) for _ in range(r.randrange(1, 30)))
    return s + r.choice(("", "", "", " ", " ; remark"))


def soa(r):
    return "%s %sSOA ns hostmaster.@ %d 3600 600 86400 %d".replace(".@", "") % (
        r.choice(("@", "", "example.com.", "zone", "z.example.", ".")), r.choice(("", "IN ", "300 IN ")),
        r.choice((0, 1, 2024010101, 4294967295, r.randrange(1 << 32))), r.randrange(100000))


def content(r):
    """What is in the file, and a word for it."""
    x = r.random()
    if x < .05:
        return r.choice((b"", b"\n", b"; nothing\n", b"\n\n\n", b"$TTL 5\n", b"$ORIGIN a.\n", b" ")), "no records"
    ls = []
    p = r.choice((0, 0, 0, .05, .3))
    for _ in range(r.choice((0, 0, 1, 2, 5))):
        y = r.random()
        ls.append("$ORIGIN " + r.choice(DOM) if y < .45 else "$TTL %d" % r.randrange(1, 90000) if y < .7 else r.choice(("", ";", "  ")))
    what = "zone"
    if x < .12:
        what = "no SOA"
        ls.append(line(r, p))
    else:
        ls.append(soa(r))
    ls += [line(r, p) for _ in range(r.choice((0, 1, 2, 3, 6, 12, 40, 200)))]
    if r.random() < .15:
        ls.insert(r.randrange(1, len(ls) + 1), soa(r))
    if r.random() < .2:
        ls.append(soa(r))
    b = "\n".join(ls).encode("latin-1")
    return b + (b"" if r.random() < .3 else b"\n"), what


def fname(r, gz):
    x = r.random()
    n = r.choice(("zone", "a", "db.example", "z.g", "gz", "x.gzz", "" if gz else "b"))
    if x < .4:
        n = r.choice(("two words", "it's", "a;touch vf-injected", "$(touch vf-injected)", "`touch vf-injected`", "a&touch vf-injected", "a|touch vf-injected", "back\\slash",
                      "quote\"d", "new\nline", "star*", "-c", "-", "--help", "#x", "~", "a'b'c", "'", "''", "$HOME", "!!", "tab\there", "a>vf-injected", "(x)", "{a,b}", "\\'", "%s%n"))
    elif x < .55:
        n = "".join(r.choice("abc $'\"\\;&|<>`()*?[]#~=%!-\n\t.{}") for _ in range(r.randrange(1, 30)))
    n = n.replace("/", "")
    if n in (".", ".."):
        n = "dot"
    n += ".gz" if gz else r.choice(("", ".", ".txt", ".zone", ".g", "gz", ".gzip"))
    if not gz and n.endswith(".gz"):
        n += "x"
    return n.encode()


class C46(Check):
    prop, driver = "C46", DRIVER
    batch, quick, thorough = 200, 120, 5000
    extra_kinds, msan = ("msan",), .04
    technique = "online comparison of the records delivered with a reference reader; ASan+UBSan, leak, descriptor and process monitors; injected read errors, truncated archives and hostile file names"
    rule = ("zone files of 0 to 200 lines with records, directives, blank lines and malformed lines, with and without SOA, plain and compressed, truncated, absent or unreadable, "
            "under names the shell would interpret; the serial, the count and the domain asked for at any time; non-trivial: distinct cases whose file is a zone")
    min_tags = ("plain", "compressed", "hostile name", "no records", "no SOA", "zone", "malformed line", "origin before SOA", "second SOA", "serial after SOA", "read error", "truncated archive",
                "not there", "directory", "read out", "abandoned", "trailing SOA")
    assumptions = ["libldns is not installed: its place is taken by a stand-in with the same interface and ownership rules over a small zone language; "
                   "what is delivered after a second SOA is not judged"]

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            gz = r.random() < .35
            b, what = content(r)
            tags = ["compressed" if gz else "plain", what]
            nm = fname(r, gz)
            if not nm.replace(b".", b"").replace(b"-", b"").isalnum() or nm.startswith(b"-"):
                tags.append("hostile name")
            kind, fail, cut = 0, 0, 0
            raw = b
            x = r.random()
            if x < .03:
                kind = 1
                tags.append("not there")
            elif x < .06 and not gz:
                kind = 2
                tags.append("directory")
            elif x < .14 and not gz and b:
                fail = r.choice((1, r.randrange(1, len(b) + 1), r.randrange(1, len(b) + 1), len(b)))
                tags.append("read error")
            elif gz and x < .2:
                cut = 1
                tags.append("truncated archive")
            if gz and kind == 0:
                z = gzip.compress(b, r.choice((1, 9)), mtime=0)
                if cut:
                    z = z[:r.choice((len(z) - 1, len(z) - 4, len(z) - 8, r.randrange(len(z))))] if r.random() < .7 else b"not an archive"
                raw = z
            sc = ""
            for _ in range(r.choice((0, 1, 3, 10, 60))):
                sc += r.choice("rrrrscd")
            full = r.random() < .6
            if full:
                sc += "n" + r.choice(("", "r", "rr", "scd"))
            c = Case(1, [nm, raw, num(kind), num(fail), sc.encode()], tag=tags)
            c.ctx = (b, gz, kind, fail, cut)
            out.append(c)
        return out

    def judge(self, case, rd):
        b, gz, kind, fail, cut = case.ctx
        script = case.args[4].decode()
        opened = rd.n()
        hard = kind or cut or fail
        z = Zone(b)
        if fail:
            z.lines = b[:fail].split(b"\n")[:-1]       # the lines read in full
        try:
            first = z.next() if not kind else None
        except Bad:
            first = None
        if first is not None and first[2] != 6:
            first = None
        if not hard and bool(opened) != (first is not None):
            return "accepted" if opened else "refused", "%s: %r named %r" % ("no zone was accepted" if opened else "a zone was refused", b[:300], case.args[0])
        if fail and first is not None and not opened:
            return "refused", "a zone whose SOA could be read was refused: %r" % (b[:300],)
        if opened and (kind or cut and first is None):
            return "accepted", "nothing readable was accepted as a zone: %r" % (b[:200],)
        # judged: the rest is known; in sync: what is broken has not been met yet
        n, end, over, judged = 1, False, False, bool(opened) and first is not None
        todo = first
        if judged and z.origin is None:
            z.origin = first[0].decode("latin-1")
        for ch in script if opened else "":
            if ch in "scd":
                w = rd.s()
                v = rd.b() if ch == "d" else rd.n()
                if w != ch:
                    return "script", "answer %r instead of %r" % (w, ch)
                if first is None:
                    continue
                if ch == "s" and v != int.from_bytes(first[3][2], "big"):
                    return "serial", "serial %d, expected %d" % (v, int.from_bytes(first[3][2], "big"))
                if ch == "c" and judged and not over and v != n:
                    return "count", "count %d after %d records" % (v, n)
                if ch == "d" and v != first[0]:
                    return "domain", "domain %r, expected %r" % (v, first[0])
                continue
            errs = 0
            while True:
                w = rd.s()
                g = None
                if w == "r":
                    ow, ttl, ty, k = rd.b(), rd.n(), rd.n(), rd.n()
                    g = (ow, ttl, ty, [rd.b() for _ in range(k)])
                errs = errs + 1 if w == "e" else 0
                if over:
                    pass
                elif end:
                    if w != "0":
                        return "end", "%r after the end: %r" % (w, g)
                elif not judged:
                    if w == "0" and not self.stops(b):
                        return "end", "the end of a zone that could not be read out is reported as its end: %r" % (b[:200],)
                else:
                    try:
                        e, z_at = todo if todo is not None else z.next(), z.at
                        ew = "0" if e is None or e[2] == 6 and todo is None else "r"
                    except Bad:
                        e, ew = None, "e"
                    if hard and (w, g) != (ew, e if ew == "r" else None) or fail and e is None and ew == "0":
                        # the break: something cut off or an error, and no end
                        judged = False
                        if w == "0" and not self.stops(b):
                            return "end", "the end of a zone that could not be read out is reported as its end: %r" % (b[-200:],)
                    elif w != ew:
                        return "record", "%s instead of %s: %r, expected %r" % (w, ew, g, e)
                    elif ew == "r":
                        if g != e:
                            return "record", "%r, expected %r" % (g, e)
                        n += todo is None
                        todo = None
                    elif ew == "0":
                        if cut and e is None:
                            return "end", "a damaged archive reads as a complete zone: %r" % (b[-200:],)
                        end, over = e is None, e is not None
                if ch == "r" or w == "0" or errs >= 300:
                    break
        if rd.s() != "end":
            return "script", "no end"
        if rd.n() != 1:
            return "destroy", "the pointer is not cleared"
        objs, leak, fds, broke, nop, made, procs = (rd.n() for _ in range(7))
        if objs:
            return "leak", "%d records or names left behind" % objs
        if leak:
            return "leak", "%d blocks left behind" % leak
        if fds:
            return "descriptors", "%d descriptors left open" % fds
        if procs:
            return "process", "the decompressing process is left behind"
        if made:
            return "shell", "the file name was interpreted by the shell: %r" % (case.args[0],)
        return None

    @staticmethod
    def stops(b):
        """Has a second SOA, where the reader may stop."""
        return b.count(b"SOA ") > 1

    def tag(self, case, res):
        t = list(case.tag)
        b, gz, kind, fail, cut = case.ctx
        if kind or cut:
            return t
        z = Zone(b)
        try:
            f = z.next()
        except Bad:
            return t
        if f is None or f[2] != 6:
            return t
        if z.origin is not None:
            t.append("origin before SOA")
        script = case.args[4].decode()
        if "s" in script.lstrip("scd"):
            t.append("serial after SOA")
        t.append("read out" if "n" in script else "abandoned")
        z.origin = z.origin or f[0].decode("latin-1")
        while True:
            try:
                e = z.next()
            except Bad:
                t.append("malformed line")
                continue
            if e is None:
                return t
            if e[2] == 6:
                t.append("second SOA" if z.at < len(z.lines) - 1 else "trailing SOA")
                return t

    def nontrivial(self, case, res):
        return "zone" in case.tag


CHECK = C46()
