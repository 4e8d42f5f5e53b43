"""libmy's argument parser: tables, command lines, and what the documentation
says becomes of them."""
import struct
from vf import runner as R

DRIVER = ("argv", ["argv.c"], {"lib": False})
num, Case, Check = R.num, R.Case, R.Check
LAST, MAND, MAYBE, OR, XOR = 255, 254, 253, 252, 251
(BOOL, BOOL_NEG, BOOL_ARG, CHAR, CHAR_P, SHORT, U_SHORT, INT, U_INT, LONG, U_LONG, FLOAT, DOUBLE, BIN, OCT, HEX, INCR, SIZE, U_SIZE,
 BOOL_INT, BOOL_INT_NEG, BOOL_INT_ARG) = range(1, 23)
ARRAY, FMAND = 1 << 14, 1 << 13
FMT = {BOOL: "b", BOOL_NEG: "b", BOOL_ARG: "b", CHAR: "c", CHAR_P: "P", SHORT: "<h", U_SHORT: "<H", INT: "<i", U_INT: "<I", LONG: "<q", U_LONG: "<Q",
       FLOAT: "<f", DOUBLE: "<d", BIN: "<i", OCT: "<i", HEX: "<i", INCR: "<i", SIZE: "<q", U_SIZE: "<Q", BOOL_INT: "<i", BOOL_INT_NEG: "<i",
       BOOL_INT_ARG: "<i"}
NOARG = (BOOL, BOOL_NEG, INCR, BOOL_INT, BOOL_INT_NEG)
SIZEOF = {t: 8 if f == "P" else struct.calcsize(f) for t, f in FMT.items()}
USAGE = ("usage", "help", "usage-short", "usage-long", "usage-all", "version", "argv-display")
SETTINGS = ("close", "toggle", "multi", "env", "after", "interactive", "stream", "error", "usage", "code", "noenv", "table")
NULL = R.NULL


class Exit(Exception):
    pass


class DontCare(Exception):
    """The documentation does not say."""


class E:
    """One entry of the table."""
    __slots__ = ("short", "long", "type", "var", "label", "comment", "init", "used", "val", "alloc")

    def __init__(self, short, long=None, type=BOOL, var=True, label=None, comment=None, init=None):
        self.short, self.long, self.type, self.var, self.label, self.comment = short, long, type, var, label, comment
        t = type & 0x3f
        self.init = init if init is not None else (None if t == CHAR_P else bytes(SIZEOF.get(t, 8)))

    @property
    def t(self):
        return self.type & 0x3f

    @property
    def array(self):
        return bool(self.type & ARRAY)

    @property
    def has_arg(self):
        return self.t not in NOARG

    def size(self):
        return SIZEOF.get(self.t, 8)


def text(s):
    if s is None:
        return b"\0"
    return b"\1" + (s.encode("latin1") if isinstance(s, str) else s)


def blob(case):
    """The driver's arguments of a case (a dict)."""
    st = case["set"]
    a = [bytes(st[k] & 255 for k in SETTINGS), text(case.get("env_name")), text(case.get("env")), num(len(case["files"]))]
    a += list(case["files"])
    a += [num(len(case["argv"]))] + [text(x) for x in case["argv"]]
    a.append(num(len(case["table"])))
    for e in case["table"]:
        a += [num(e.short), text(e.long), num(e.type), num(e.size()), num(1 if e.var else 0), text(e.label), text(e.comment),
              text(e.init) if e.t == CHAR_P else e.init]
    for q in case["ask"]:
        a.append(num(q[0]))
        a += [text(x) if isinstance(x, (bytes, str)) or x is None else num(x & (1 << 64) - 1) for x in q[1:]]
    if case.get("global") is not None or case.get("fresh"):
        a.append(text(case.get("global")))
    return a


def c_int(s, lo=None, hi=None):
    """The leading integer of a text, as atol() reads it."""
    i, n = 0, len(s)
    while i < n and s[i] in b" \t\n\v\f\r":
        i += 1
    j = i
    if j < n and s[j] in b"+-":
        j += 1
    k = j
    while k < n and 48 <= s[k] <= 57:
        k += 1
    v = int(s[i:k]) if k > j else 0
    if lo is not None and not lo <= v <= hi:
        raise DontCare
    return v


def digits(s, chars):
    i = 0
    while i < len(s) and s[i] in b" \t\n\v\f\r":
        i += 1
    j = i
    while j < len(s) and s[j] in chars:
        j += 1
    return s[i:j], s[i:]


def c_float(s):
    """The number at the start of a text, None if there is none."""
    import re
    m = re.match(rb"[ \t\n\v\f\r]*([+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)", s)
    t = s.lstrip(b" \t\n\v\f\r").lstrip(b"+-").lower()
    if t[:1] in (b"i", b"n") or t[:2] == b"0x":
        raise DontCare
    if not m:
        return None
    if s[m.end():m.end() + 1].lower() == b"e":
        raise DontCare
    return float(m.group(1))


def wrap(v, bits, sign):
    v &= (1 << bits) - 1
    return v - (1 << bits) if sign and v >> bits - 1 else v


def truth(a):
    return 1 if a[:1] in (b"t", b"T", b"y", b"Y", b"1") and a else 0


def convert(t, a, old):
    """The value of type t the text a (None: no text) stands for."""
    if t in (BOOL, BOOL_INT):
        return 1 if a is None else truth(a)
    if t in (BOOL_NEG, BOOL_INT_NEG):
        return 0 if a is None else truth(a)
    if t in (BOOL_ARG, BOOL_INT_ARG):
        return truth(a)
    if t == CHAR:
        return a[:1] or b"\0"
    if t == CHAR_P:
        return a
    if t == SHORT:
        return c_int(a, -2 ** 15, 2 ** 15 - 1)
    if t == U_SHORT:
        return c_int(a, 0, 2 ** 16 - 1)
    if t == INT:
        return c_int(a, -2 ** 31, 2 ** 31 - 1)
    if t == U_INT:
        return c_int(a, 0, 2 ** 32 - 1)
    if t == LONG:
        return c_int(a, -2 ** 63, 2 ** 63 - 1)
    if t == U_LONG:
        return c_int(a, 0, 2 ** 64 - 1)
    if t in (FLOAT, DOUBLE):
        v = c_float(a)
        if v is None:
            return old
        try:
            return struct.unpack(FMT[t], struct.pack(FMT[t], v))[0]
        except OverflowError:
            raise DontCare
    if t == BIN:
        d = digits(a, b"01")[0]
        if len(d.lstrip(b"0")) > 32:
            raise DontCare
        return wrap(int(d or b"0", 2), 32, True)
    if t == OCT:
        v = int(digits(a, b"01234567")[0] or b"0", 8)
        if v >> 32:
            raise DontCare
        return wrap(v, 32, True)
    if t == HEX:
        rest = digits(a, b"")[1]
        if rest[:2] in (b"0x", b"0X"):
            rest = rest[2:]
            d = b""
            for c in rest:
                if c not in b"0123456789abcdefABCDEF":
                    break
                d += bytes([c])
        else:
            d = digits(rest, b"0123456789abcdefABCDEF")[0] if rest[:1] not in (b" ",) else b""
        v = int(d or b"0", 16)
        if v >> 32:
            raise DontCare
        return wrap(v, 32, True)
    if t == INCR:
        if a is None:
            return min(old + 1, 2 ** 31 - 1)
        return c_int(a, -2 ** 31, 2 ** 31 - 1)
    if t in (SIZE, U_SIZE):
        v = c_int(a, *((-2 ** 63, 2 ** 63 - 1) if t == SIZE else (0, 2 ** 64 - 1)))
        i = 0
        while i < len(a) and a[i] in b" -+0123456789":
            i += 1
        v *= {b"k": 1 << 10, b"m": 1 << 20, b"g": 1 << 30}.get(a[i:i + 1].lower(), 1)
        if not (-2 ** 63 <= v < 2 ** 63 if t == SIZE else 0 <= v < 2 ** 64):
            raise DontCare
        return v
    raise DontCare


class Model:
    """One run of the parser over a table; values persist between runs."""

    def __init__(self, case):
        self.c, self.tab, self.st = case, case["table"], dict(case["set"])
        for e in self.tab:
            e.used, e.alloc = False, False
            e.val = [] if e.array else self.first(e)
        g = case.get("global")
        self.bad_global = False
        if g is not None and not self.st["noenv"]:
            self.global_settings(g)

    @staticmethod
    def first(e):
        if e.t == CHAR_P:
            return e.init
        if e.t not in FMT or not e.var:
            return None
        return e.init if e.t == CHAR else struct.unpack(FMT[e.t], e.init)[0]

    def global_settings(self, g):
        import re
        on = {"disable": 0, "off": 0, "no": 0, "0": 0, "enable": 1, "on": 1, "yes": 1, "1": 1}
        for tok in re.split("[ \t,:]", g):
            if not tok:
                continue
            k, eq, v = tok.partition("=")
            if not eq:
                self.bad_global = True
            elif k in ("close", "lasttog") and v in on:
                self.st["close" if k == "close" else "toggle"] = on[v]
            elif k == "env" and v in ("none", "before", "after"):
                self.st["env"], self.st["after"] = int(v != "none"), int(v == "after")
            elif k == "multi" and v in ("reject", "accept"):
                self.st["multi"] = int(v == "accept")
            elif k == "error" and v in ("none", "see", "short", "shortrem", "long", "all"):
                pass
            elif k == "usage" and v in ("short", "shortrem", "long", "all"):
                pass
            else:
                self.bad_global = True

    def table_ok(self):
        arr = maybe = False
        n = len(self.tab)
        for i, e in enumerate(self.tab):
            e.used = e.alloc = False
            if e.short == MAND:
                if arr or maybe:
                    return False
                arr = e.array
            if e.short == MAYBE:
                if arr:
                    return False
                maybe = True
                arr = e.array
            if e.array:
                if not e.has_arg:
                    return False
                if e.var:
                    e.val = []
            if not e.var and e.short not in (OR, XOR):
                return False
            if e.short in (OR, XOR):
                if i == 0 or i == n - 1 or self.tab[i - 1].short in (OR, XOR):
                    return False
        return True

    def put(self, e, a):
        if e.t not in FMT:
            self.ok = False
            return
        if e.array:
            e.val.append(convert(e.t, a, 0))
        else:
            e.val = convert(e.t, a, e.val)
            e.alloc = e.t == CHAR_P

    def group(self, i):
        """The entries joined to entry i by [X]OR."""
        out = [i]
        k = i
        while k - 2 >= 0 and self.tab[k - 1].short in (OR, XOR):
            k -= 2
            out.append(k)
        k = i
        while k + 2 < len(self.tab) and self.tab[k + 1].short in (OR, XOR):
            k += 2
            out.append(k)
        return out

    def arg(self, i, close):
        e = self.tab[i]
        if not self.st["multi"] and e.used and not e.array and e.t != INCR:
            self.ok = False
        e.used = True
        if any(self.tab[k].used for k in self.group(i) if k != i):
            self.ok = False
        if close is not None:
            self.put(e, close)
        elif not e.has_arg:
            self.put(e, None)
        else:
            self.queue.append(e)

    def fail(self):
        self.ok = False

    def file(self, path):
        names = {b"f%d" % i: f for i, f in enumerate(self.c["files"])}
        if path in names:
            f = names[path]
            lines = f.split(b"\n")
            if any(len(l) > 1022 or b"\0" in l for l in lines):
                raise DontCare
            self.depth += 1
            if self.depth > 8:
                raise DontCare
            self.list([l for l in lines if l])
            self.depth -= 1
            return
        if path == b"-":
            return      # nothing there
        if path == b".":
            pass        # a directory opens and cannot be read
        elif path in (b"", b"..", b"/") or path.startswith(b"/"):
            raise DontCare
        self.ok = False
        if self.st["interactive"]:
            raise Exit(self.st["code"])

    def split(self, a):
        if self.st["close"] and b"=" in a:
            a, _, c = a.partition(b"=")
            return a, c
        return a, None

    def list(self, argv):
        last = False
        tab = self.tab
        for a in argv:
            if a == b"--":
                if not last:
                    last = True
                    continue
                if self.st["toggle"]:
                    last = False
                    continue
            if not last and a.startswith(b"--"):
                a, close = self.split(a)
                nm = a[2:]
                if not nm:
                    self.ok = False
                    continue
                m = [i for i, e in enumerate(tab) if e.long is not None and e.long.encode("latin1").startswith(nm)]
                if len(m) > 1:
                    if any(tab[i].long.encode("latin1") == nm for i in m):
                        raise DontCare
                    self.ok = False
                    continue
                if m:
                    self.arg(m[0], close)
                    continue
                if b"argv-file".startswith(nm):
                    if close is not None:
                        self.file(close)
                    else:
                        self.queue.append(None)
                    continue
                if any(u.encode().startswith(nm) for u in USAGE):
                    if self.st["interactive"]:
                        raise Exit(0)
                    continue
                self.ok = False
                continue
            if not last and a.startswith(b"-") and len(a) > 1:
                a, close = self.split(a)
                if len(a) < 2:
                    self.ok = False
                    continue
                for k, ch in enumerate(a[1:]):
                    if ch >= 251:
                        raise DontCare
                    m = [i for i, e in enumerate(tab) if e.short == ch]
                    if m:
                        self.arg(m[0], close)
                        continue
                    if ch == 63:
                        if self.st["interactive"]:
                            raise Exit(0)
                        continue
                    if k == 0 and self.queue and all(x in b"0123456789+-." for x in a):
                        e = self.queue[0]
                        if e is not None and e.t in (SHORT, INT, LONG, FLOAT, DOUBLE):
                            self.queue.pop(0)
                            self.put(e, a)
                            break
                    self.ok = False
                continue
            if self.queue:
                if not tab:
                    raise DontCare
                e = self.queue.pop(0)
                if e is None:
                    self.file(a)
                else:
                    self.put(e, a)
                continue
            for kind in (MAND, MAYBE):
                m = [e for e in tab if e.short == kind and (not e.used or e.array)]
                if m:
                    self.put(m[0], a)
                    m[0].used = True
                    break
            else:
                self.ok = False

    def run(self):
        """(return value, exit code or -1)"""
        self.ok, self.queue, self.depth = True, [], 0
        st, c = self.st, self.c
        if st["table"] == 1:
            self.tab = []
        try:
            if not self.table_ok():
                if st["interactive"]:
                    raise Exit(st["code"])
                return -1, -1
            env = [x for x in (c.get("env") or "").replace("\t", " ").split(" ") if x] if c.get("env_name") and st["env"] else []
            env = [x.encode("latin1") for x in env]
            if not st["after"]:
                self.list(env)
            self.list(c["argv"][1:])
            if st["after"]:
                self.list(env)
            for e in self.tab:
                if (e.short == MAND or e.type & FMAND) and not e.used:
                    self.ok = False
            if self.queue:
                self.ok = False
            i = 0
            while i < len(self.tab):
                if self.tab[i].short == XOR:
                    g = self.group(i - 1)
                    if len({self.tab[k + 1].short for k in sorted(g)[:-1]}) > 1:
                        raise DontCare
                    if not any(self.tab[k].used for k in g):
                        self.ok = False
                    i = max(g)
                i += 1
            if not self.ok:
                if st["interactive"]:
                    raise Exit(st["code"])
                return -1, -1
            return 0, -1
        except Exit as x:
            return 0, x.args[0]

    def cleanup(self):
        for e in self.tab:
            if e.array:
                e.val = []
            elif e.alloc:
                e.val = None

    # ---- what is recorded of the values
    def raw(self, e, v):
        if e.t == CHAR_P:
            return NULL if v is None else v if isinstance(v, bytes) else v.encode("latin1")
        if e.t == CHAR:
            return v
        return struct.pack(FMT[e.t], v)

    def want(self, e):
        if not e.var:
            return []
        if e.array:
            return [self.raw(e, v) for v in e.val]
        if e.t not in FMT:
            return None
        return [self.raw(e, e.val)]


# ------------------------------------------------------------- as text
SPECIAL = dict(zip(b"\033^\"'\\\n\r\t\b\f\a", b"e^\"'\\nrtbfa"))


def units(b):
    out = []
    for c in b:
        if c in SPECIAL:
            out.append(bytes([92, SPECIAL[c]]))
        elif 32 <= c < 127:
            out.append(bytes([c]))
        else:
            out.append(b"\\%03o" % c)
    return out


def show(t, v, size):
    """A value's text in a buffer of the given size."""
    if t in (BOOL, BOOL_NEG, BOOL_ARG, BOOL_INT, BOOL_INT_NEG, BOOL_INT_ARG):
        s = "true (! 0)" if v else "false (0)"
    elif t in (CHAR, CHAR_P) and v is not None:
        out, left = b"", size - 1
        for u in units(v if isinstance(v, bytes) else v.encode("latin1")):
            if len(u) > left:
                break
            out += u
            left -= len(u)
        return out
    elif t == CHAR_P:
        s = "(null)"
    elif t in (FLOAT, DOUBLE):
        s = "%f" % v
    elif t == BIN:
        s = "0" if v == 0 else "0b%s (%d)" % (bin(v & 0xffffffff)[2:], v)
    elif t == OCT:
        s = "0" if v == 0 else "0%o (%d)" % (v & 0xffffffff, v)
    elif t == HEX:
        s = "0" if v == 0 else "0x%x (%d)" % (v & 0xffffffff, v)
    elif t in (SIZE, U_SIZE):
        s = "%d" % v
        if v:
            for sh, l in ((30, "g"), (20, "m"), (10, "k")):
                if v % (1 << sh) == 0:
                    s = "%d%s (%d)" % (v >> sh, l, v)
                    break
    elif t in FMT:
        s = "%d" % v
    else:
        s = "(unknown)"
    return s.encode()[:size - 1]


def show_entry(e, size):
    if not e.array:
        return show(e.t, e.val, size)
    if not e.val:
        return b"0 array entries"[:size - 1]
    s = show(e.t, e.val[0], size)
    if len(e.val) > 1:
        s = (s + b" (1st of %d entries)" % len(e.val))[:size - 1]
    return s


# ---------------------------------------------------------------- generation
SHORTS = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+.,:@_~%"
WORDS = ("verbose", "version", "output", "out", "input", "help", "usage", "name", "number", "file", "argv-file", "level", "log-file", "log-level", "x",
         "size", "maximum-file-size", "no-colours", "no-colours-ever", "max-size", "min-size", "port", "color", "colour", "dry-run", "quiet")
TYPES = list(FMT)


def value(r, t):
    """A text for a value of type t."""
    k = r.random()
    if k < .08:
        return r.choice((b"", b"abc", b"-", b" ", b"x=1", b"!", b"zzz", b"--", b"+5", b" 12", b"\xff\x80", b"0", b"1"))
    s = r.random() < .25
    if t in (BOOL, BOOL_NEG, BOOL_ARG, BOOL_INT, BOOL_INT_NEG, BOOL_INT_ARG):
        return r.choice((b"yes", b"no", b"true", b"false", b"1", b"0", b"T", b"Y", b"off", b"n", b"10", b"t", b"y"))
    if t in (CHAR, CHAR_P):
        return bytes(r.choice((97, 98, 32, 34, 39, 92, 10, 13, 9, 27, 94, 7, 8, 12, 1, 127, 200, 255, 46, 61, 45, r.randrange(1, 256)))
                     for _ in range(r.randrange(1, 4) if t == CHAR else r.choice((1, 2, 5, 20, 60))))
    if t == SHORT:
        return b"%d" % r.choice((0, 1, -1, 32767, -32768, r.randrange(-2 ** 15, 2 ** 15)))
    if t == U_SHORT:
        return b"%d" % r.choice((0, 65535, 32768, r.randrange(2 ** 16)))
    if t == INCR:
        return b"%d" % r.choice((0, 5, -1, 1000, 2 ** 31 - 1, 2 ** 31 - 2, -2 ** 31))
    if t == INT:
        return b"%d%s" % (r.choice((0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randrange(-2 ** 31, 2 ** 31), r.randrange(-100, 100))), b"k" if s else b"")
    if t == U_INT:
        return b"%d" % r.choice((0, 2 ** 32 - 1, 2 ** 31, r.randrange(2 ** 32)))
    if t == LONG:
        return b"%d" % r.choice((0, -1, 2 ** 63 - 1, -2 ** 63, 2 ** 31, r.randrange(-2 ** 63, 2 ** 63), r.randrange(-1000, 1000)))
    if t == U_LONG:
        return b"%d" % r.choice((0, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1, r.randrange(2 ** 64), r.randrange(1000)))
    if t in (FLOAT, DOUBLE):
        return r.choice((b"0", b"1.5", b"-2.25", b".5", b"3.", b"1e3", b"-1.25E-2", b"%d.%03d" % (r.randrange(1000), r.randrange(1000)),
                         b"-%d" % r.randrange(100), b"12abc", b" 7", b"+4.5"))
    if t == BIN:
        return bytes(r.choice(b"01") for _ in range(r.choice((1, 3, 8, 31, 32, 32)))) + (b"2" if s else b"")
    if t == OCT:
        return b"%o" % r.randrange(1 << r.choice((3, 9, 16, 31, 32))) + (b"8" if s else b"")
    if t == HEX:
        return r.choice((b"", b"0x", b"0X")) + r.choice((b"%x", b"%X")) % r.randrange(1 << r.choice((4, 8, 16, 31, 32))) + (b"g" if s else b"")
    if t in (SIZE, U_SIZE):
        u = r.choice((b"", b"b", b"B", b"k", b"K", b"m", b"M", b"g", b"G", b"x", b"kb"))
        top = {b"k": 53, b"m": 43, b"g": 33}.get(u[:1].lower(), 63) + (t == U_SIZE)
        v = r.randrange(1 << r.randrange(1, top + 1))
        return (b"-" if t == SIZE and r.random() < .3 else b"") + b"%d" % v + u
    return b"1"


def table(r, n, wild=False):
    """Entries; well formed unless wild."""
    shorts = list(SHORTS)
    r.shuffle(shorts)
    words = list(WORDS) + ["w%d" % i for i in range(20)]
    r.shuffle(words)
    out = []

    def opt(noarg=None):
        t = r.choice(TYPES)
        if noarg:
            t = r.choice(NOARG)
        ty = t
        if t not in NOARG and r.random() < .25:
            ty |= ARRAY
        if r.random() < .07:
            ty |= FMAND
        sh = shorts.pop() if r.random() < .85 else 0
        lo = words.pop() if sh == 0 or r.random() < .6 else None
        return entry(r, sh, lo, ty)
    while len(out) < n and len(shorts) > 4 and len(words) > 4:
        k = r.random()
        if k < .8 or n - len(out) < 3:
            out.append(opt())
        else:
            j = r.choice((OR, XOR)) if r.random() < .95 else r.choice((OR, OR))
            m = r.choice((2, 2, 3, 4))
            for i in range(m):
                if i:
                    out.append(E(j, var=False, type=0, init=bytes(8)))
                out.append(opt(r.random() < .5))
    k = r.random()
    nm = 0 if k < .4 else r.choice((1, 1, 2, 3))
    nx = 0 if r.random() < .6 else r.choice((1, 1, 2))
    closed = False
    for i in range(nm):
        t = r.choice([t for t in TYPES if t not in NOARG])
        a = i == nm - 1 and r.random() < .3
        closed |= a
        out.insert(r.randrange(len(out) + 1) if False else len(out), entry(r, MAND, None, t | (ARRAY if a else 0)))
    if not closed:
        for i in range(nx):
            t = r.choice([t for t in TYPES if t not in NOARG])
            out.append(entry(r, MAYBE, None, t | (ARRAY if i == nx - 1 and r.random() < .3 else 0)))
    if wild:
        for _ in range(r.choice((1, 1, 2, 4))):
            mutate(r, out)
    return out[:60]


def entry(r, sh, lo, ty):
    t = ty & 0x3f
    init = None
    if t == CHAR_P:
        init = None if r.random() < .5 else r.choice((b"", b"default", b"/etc/x"))
    elif r.random() < .5:
        init = r.choice((bytes(SIZEOF[t]), struct.pack(FMT[t], 1) if t not in (CHAR,) else b"q"))
    if t in (FLOAT, DOUBLE) and init is not None:
        init = struct.pack(FMT[t], 2.5)
    lab = None if r.random() < .3 else r.choice(("file", "n", "a long label of a variable", "x" * r.randrange(1, 90), "value"))
    com = None if r.random() < .3 else r.choice(("a comment", "c" * r.randrange(1, 120), "what it does", ""))
    return E(sh, lo, ty, True, lab, com, init)


def mutate(r, tab):
    k = r.random()
    if not tab or k < .2:
        tab.insert(r.randrange(len(tab) + 1), E(r.choice((OR, XOR)), var=False, type=0, init=bytes(8)))
    elif k < .3:
        e = r.choice(tab)
        e.var = False
    elif k < .5:
        e = r.choice(tab)
        if e.t in FMT:
            e.type |= ARRAY
    elif k < .7:
        tab.insert(r.randrange(len(tab) + 1), entry(r, r.choice((MAND, MAYBE)), r.choice((None, "mand")), r.choice(TYPES) | r.choice((0, ARRAY))))
    elif k < .8:
        e = r.choice(tab)
        if e.t not in FMT or e.t in NOARG or not e.array and SIZEOF[e.t] == 8 and e.t != CHAR_P:
            e.type = r.choice((23, 40, 63, 0)) | e.type & (ARRAY | FMAND)
            e.init = bytes(8)
    elif k < .9:
        r.shuffle(tab)
    else:
        e = r.choice(tab)
        e.long = r.choice(("", "out", "o", "argv-file", "usage", "a=b", "-", "x" * 50))


def line(r, tab, depth=0, nfiles=0):
    """A command line for the table."""
    out = []
    opts = [e for e in tab if e.short not in (OR, XOR, MAND, MAYBE)]
    pos = [e for e in tab if e.short in (MAND, MAYBE)]
    need = []

    def use(e):
        v = value(r, e.t)
        if e.short and (e.long is None or r.random() < .6):
            if r.random() < .3 and e.has_arg or r.random() < .1:
                out.append(b"-%c=" % e.short + v)
            elif e.has_arg:
                out.append(b"-%c" % e.short)
                (need if r.random() < .25 else out).append(v)
            else:
                out.append(b"-%c" % e.short)
        elif e.long:
            nm = e.long.encode("latin1")
            if r.random() < .4:
                nm = nm[:r.randrange(1, len(nm) + 1)]
            if r.random() < .4 and e.has_arg or r.random() < .1:
                out.append(b"--" + nm + b"=" + v)
            elif e.has_arg:
                out.append(b"--" + nm)
                (need if r.random() < .25 else out).append(v)
            else:
                out.append(b"--" + nm)
    careful = r.random() < .6
    todo = []
    if careful:         # each at most once, one of each group
        grouped = set()
        for i, e in enumerate(tab):
            if e.short in (OR, XOR) or e in pos or i in grouped:
                continue
            g = [i]
            while g[-1] + 2 < len(tab) and tab[g[-1] + 1].short in (OR, XOR):
                g.append(g[-1] + 2)
            grouped |= set(g)
            x = len(g) > 1 and tab[i + 1].short == XOR
            c = r.choice(g)
            if x or r.random() < .4 or any(tab[q].type & FMAND for q in g):
                todo.append(tab[c])
                if tab[c].array or tab[c].t == INCR:
                    todo += [tab[c]] * r.choice((0, 0, 1, 2, 12))
    else:
        todo = [r.choice(opts) for _ in range(r.choice((0, 1, 3, 6, 30)))] if opts else []
    r.shuffle(todo)
    for e in todo:
        if need and r.random() < .5:
            out.append(need.pop(0))
        use(e)
        k = r.random()
        if k < .04 and opts:
            m = [o for o in opts if o.short][:30]
            if m:
                out.append(b"-" + bytes(r.choice(m).short for _ in range(r.choice((2, 3, 5, 45)))))
        elif k < .08 and nfiles and depth < 2:
            fn = b"f%d" % r.randrange(nfiles) if careful or r.random() < .95 else b"."
            out += r.choice(([b"--argv-file=" + fn], [b"--argv-file", fn]))
    out += need if careful or r.random() < .7 else []
    if r.random() < .004 and depth == 0:
        # hundreds of options wait for their values
        m = [e for e in opts if e.short and e.has_arg and e.array]
        if m:
            e = r.choice(m)
            k = r.choice((126, 127, 128, 129, 255, 256, 256, 257, 512))
            nv = r.choice((0, 0, 1, k - 256, k - 128, k - 1, k))
            out += [b"-%c" % e.short] * k + [value(r, e.t) for _ in range(max(0, nv))]
    if r.random() < .1:
        out.append(b"--")
    if depth == 0 or r.random() < .3:
        want = [value(r, e.t) for e in pos for _ in range(1 if not e.array else r.choice((1, 2, 11, 21)))]
        if not careful or r.random() < .1:
            want = want[:r.randrange(len(want) + 1)]
        for v in want:
            if r.random() < .3:
                out.insert(r.randrange(len(out) + 1), v)
            else:
                out.append(v)
    while r.random() < .12:
        out.insert(r.randrange(len(out) + 1),
                   r.choice((b"--", b"-", b"extra", b"--unknown", b"-Z", b"-?", b"--usage", b"--help", b"--version", b"--usage-long", b"--argv-display",
                             b"--usage-short", b"--usage-all", b"--argv-file", b"--argv-file=none", b"--argv-file=.", b"-5", b"-1.5", b"-=", b"--=", b"--=x", b"=", b"a=b",
                             b"-12", b"--v", b"--out", b"--argv-file=f0", b"", b"-.", b"---", b"-a-b")))
    if r.random() < .05:
        out.append(r.choice((b"--", b"--", b"-", b"", b"-Z", b"--unknown")))
    return [x for x in out if b"\0" not in x]


def case(r, wild=False):
    n = r.choice((0, 1, 2, 4, 8, 8, 15, 25))
    st = {"close": int(r.random() < .85), "toggle": int(r.random() < .3), "multi": int(r.random() < .75), "env": 1, "after": int(r.random() < .4),
          "interactive": int(r.random() < .25), "stream": int(r.random() < .85), "error": r.randrange(7), "usage": r.randrange(7),
          "code": r.choice((1, 1, 2, 77)), "noenv": int(r.random() < .25), "table": 0}
    if st["noenv"]:
        st["env"] = 0       # argv_process() is the one that looks there
    tab = table(r, n, wild)
    nf = r.choice((0, 0, 1, 2, 3))
    files = []
    for i in range(nf):
        l = [x.replace(b"\n", b"") for x in line(r, tab, 1 if i else 2, i)]
        l = [x for x in l if not (x.startswith(b"--a") and b"argv-file" in x) or (b"f%d" % i) not in x]
        files.append(b"\n".join(x for x in l for x in ([x] + [b""] * (r.random() < .1))) + (b"\n" if r.random() < .8 else b""))
    prog = r.choice(("prog", "a", "Prog-1.x", "p" * 255, "p" * 256, "p" * 300, "")) if r.random() < .4 else "prog"
    argv0 = r.choice(("", "", "/usr/bin/", "./", "//")) + prog
    c = {"set": st, "table": tab, "files": files, "argv": [argv0.encode()] + line(r, tab, 0, nf), "ask": []}
    if r.random() < .25:
        name = prog[:256]
        c["env_name"] = "ARGV_" + name.upper()
        c["env"] = r.choice(("", " ", "\t")) + r.choice((" ", "\t", "  ")).join(
            x.decode("latin1").replace(" ", "").replace("\t", "") for x in line(r, tab, 1, 0)[:12]) + r.choice(("", " "))
    return c


# ------------------------------------------------------- what was recorded
class Got:
    """One parse as the driver recorded it."""

    def __init__(self, rd, tab):
        self.rc, self.code = [x - (1 << 64) if x >> 63 else x for x in (rd.n(), rd.n())]
        self.globals_ok, self.prog, self.text = rd.n(), rd.b(), rd.b()
        self.ent = read_values(rd, tab)


def read_values(rd, tab):
    out = []
    for e in tab:
        used, kept, n = rd.n(), rd.n(), rd.n()
        out.append((used, kept, [rd.b() for _ in range(n)]))
    return out


def describe(c):
    tab = ["%s/%s:%d%s" % (chr(e.short) if 32 < e.short < 127 else {MAND: "MAND", MAYBE: "MAYBE", OR: "OR", XOR: "XOR"}.get(e.short, "%d" % e.short),
                           e.long or "", e.t, ("[]" if e.array else "") + ("!" if e.type & FMAND else "")) for e in c["table"]]
    return "table %s, arguments %s%s" % (" ".join(tab), b" ".join(x if x is not None else b"(null)" for x in c["argv"]).decode("latin1"),
                                         ", environment %r" % c["env"] if c.get("env") else "")


def entry_name(e):
    return "-%c" % e.short if 32 < e.short < 127 else "--" + e.long if e.short == 0 and e.long else {MAND: "a mandatory argument",
                                                                                                       MAYBE: "an optional argument"}.get(e.short, "an entry")


def compare(c, m, want, got):
    """None, or what differs between the model's run and the recorded one."""
    rc, code = want
    if got.code != code:
        return "exit", "the parser leaves the program with %s, expected %s" % ("code %d" % got.code if got.code >= 0 else "nothing",
                                                                               "code %d" % code if code >= 0 else "a return")
    if code < 0 and got.rc != rc:
        return "verdict", "the parser returns %d, expected %d" % (got.rc, rc)
    for e, (used, kept, vals) in zip(c["table"], got.ent):
        if not kept:
            return "table", "the type of %s has changed" % entry_name(e)
        w = m.want(e)
        if w is not None and vals != w:
            return "value", "%s (type %d) has %s, expected %s" % (entry_name(e), e.t, vals[:12], w[:12])
        if e.short not in (OR, XOR) and used != int(e.used):
            return "used", "%s is marked as %s" % (entry_name(e), "used" if used else "unused")
    if code < 0 and rc == 0 and c["set"]["stream"] == 1 and got.text and not m.bad_global:
        return "message", "a successful parse prints %r" % got.text[:200]
    if (rc != 0 or code > 0) and c["set"]["stream"] == 1 and not got.text and not any(e.t not in FMT for e in c["table"]):
        return "message", "a failed parse prints nothing"
