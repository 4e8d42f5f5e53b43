from .common import *
from .c14 import sp_name
from .c15 import name_text


def line(r):
    x = r.random()
    if x < .55:
        return sp_name(r, G.name(r))
    if x < .7:
        return r.choice((b"", b"", b"# comment", b"#", b" indented", b" ", b"#" + b"c" * r.choice((10, 1277, 1278, 1279, 1280, 1281, 2600, 5000)),
                         b" " + b"x." * r.choice((1, 638, 639, 640, 2000)), b"# example.com.", b"#" + b"a." * 639 + b"www.example.com"))
    if x < .8:
        # every octet escaped: the longest text a name can have
        nm = G.name(r)
        lab = D.labels(nm)
        return b".".join(b"".join(b"\\%03d" % c for c in l) for l in lab) + (b"." if r.random() < .5 else b"") if lab else b"."
    if x < .9:
        return D.name_text(G.name(r)).encode("latin1")
    return None


def bad_line(r):
    while True:
        s = r.choice((b"a..b", b"\\", b"x" * 64, b"\\999", b"a" * 1278, b"b." * 700, b".a", name_text(r), b"c" * 1279, b"d" * 1280, b"e" * 1281, b"\\25",
                      (b"f" * 60 + b".") * 21)).split(b"\n")[0].replace(b"\0", b"")
        try:
            if s and s[:1] not in b" #":
                D.text_name(s)
        except Bad:
            return s


class C(Check):
    prop = "C25"
    batch, quick, thorough = 800, 48, 3000
    technique = "callback-trace monitor against a line-by-line reference"
    rule = ("files of names, comments, blank lines and unreadable lines in every mixture, with and without a final newline, and "
            "files that cannot be opened or read (absent, a directory); the sequence of callbacks, the result and the open "
            "descriptors are compared with a line-by-line reference; non-trivial: distinct contents")
    min_tags = ("all delivered", "stopped at a bad line", "names before the bad line", "absent", "directory", "no final newline", "long comment", "no names", "longest line", "many", "NUL octets")
    assumptions = ["lines that are empty or start with a blank or # hold no name; files with NUL octets are judged for memory safety only"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .02:
                out.append(Case(FILELOAD, [b"absent.txt"], ctx=None, tag="absent"))
                continue
            if x < .04:
                out.append(Case(FILELOAD, [r.choice((b".", b"/"))], ctx=None, tag="directory"))
                continue
            if x < .07:
                # octets no name file holds: only safety and the file handle are judged
                t = bytearray(b"\n".join(sp_name(r, G.name(r, 60)) for _ in range(r.randrange(5))) + b"\n")
                for _ in range(r.choice((1, 1, 2, 5, 40))):
                    t.insert(r.choice([0] + [i + 1 for i, c in enumerate(t) if c == 10] + [r.randrange(len(t) + 1)]), r.choice((0, 0, 0, 255, r.randrange(256))))
                out.append(Case(FILELOAD, [b"names.txt", bytes(t)], ctx="any", tag="NUL octets"))
                continue
            ls = []
            for _ in range(r.choice((0, 1, 2, 3, 5, 8)) if x < .98 else r.choice((50, 200, 200, 200, 1500))):
                l = line(r)
                ls.append(bad_line(r) if l is None and r.random() < .5 else l or b"")
            text = b"\n".join(ls) + (b"\n" if ls and r.random() < .7 else b"")
            want, ok = [], 0
            for l in text.split(b"\n"):
                if l == b"" or l[:1] in b" #":
                    continue
                try:
                    want.append((l, D.text_name(l)))
                except Bad:
                    ok = 1
                    break
            out.append(Case(FILELOAD, [b"names.txt", text], ctx=(want, ok)))
        return out

    def judge(self, case, rd):
        f = rd.f
        names = f[:-6]
        res, count, user, fd = (int.from_bytes(x, "little") for x in f[-6:-2])
        if not fd:
            return "left open", "the file is still open"
        if count != len(names):
            return "count", "inconsistent"
        if case.ctx is None:
            if not res or names:
                return "unreadable file", "loading %r gives %d and %d names" % (case.args[0], res, len(names))
            return None
        if case.ctx == "any" and not names:
            return None
        if not user:
            return "user pointer", "the callback does not get the caller's pointer"
        if case.ctx == "any":
            return None
        want, bad = case.ctx
        if len(names) != len(want) or any(not same(s, w, g) for (s, w), g in zip(want, names)):
            return "names", "file %r delivers\n%r\nexpected\n%r" % (case.args[1][:3000], [x.hex() for x in names], [w.hex() for _, w in want])
        if bool(res) != bool(bad):
            return "result", "file %r gives %d, expected %s" % (case.args[1][:3000], res, "an error" if bad else "success")
        return None

    def tag(self, case, res):
        if case.ctx is None or case.ctx == "any":
            return case.tag
        want, bad = case.ctx
        t = ["stopped at a bad line" if bad else "all delivered"]
        if bad and want:
            t.append("names before the bad line")
        x = case.args[1]
        if x and not x.endswith(b"\n"):
            t.append("no final newline")
        if any(len(l) > 1279 and l[:1] in b"# " for l in x.split(b"\n")):
            t.append("long comment")
        if not want and not bad:
            t.append("no names")
        if any(len(l) > 1000 for l, _ in want):
            t.append("longest line")
        if len(want) > 20:
            t.append("many")
        return t


def same(s, w, g):
    if b"\\" not in s:
        return g == D.lower(w)
    return len(g) == len(w) and D.lower(g) == D.lower(w)


CHECK = C()
