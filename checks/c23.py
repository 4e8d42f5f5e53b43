import hashlib
from .common import *
from .c02 import any_rdata, any_name
from .c03 import CHECK as TXT
from .c04 import CHECK as RAW
from .c14 import spelled
from .c25 import CHECK as FILES

FILL = ["malloc_fill_byte=0", "malloc_fill_byte=255", "malloc_fill_byte=46"]


class C(Check):
    prop = "C23"
    batch, quick, thorough = 900, 36, 2000
    extra_kinds = ("msan",)
    technique = "MemorySanitizer, perturbed re-execution, and input-immutability monitor"
    rule = ("the whole mix of operations and inputs, good and bad: (1) under MemorySanitizer no decision may depend on "
            "uninitialised memory and no result may contain any; (2) run twice in fresh processes under ASan, in opposite order and "
            "with fresh memory filled differently, every result has to be identical; (3) inputs declared constant are "
            "compared with copies after every call; non-trivial: distinct calls")
    OPS = {PARSE: "parse", RD2S: "render", RTRIP: "render", S2RD: "text", S2N: "name text", NAMERT: "name", SER: "serialize", DESER: "deserialize", SORT: "sort", DOWNRRSET: "downcase rrset",
           DOWNRDATA: "downcase rdata", PRINT: "print", STRTAB: "mnemonic", TABLES: "tables", FILELOAD: "file", CMP: "compare", VERSION: "version", UNPACK: "unpack", SKIP: "skip", COPYU: "copy",
           LENU: "measure", COUNT: "count", LCHOP: "chop", REV: "reverse", ISSUB: "subdomain", DOWNNAME: "downcase name", D2S: "print name"}
    min_tags = tuple("asan " + x for x in set(OPS.values()) - {"version"}) + tuple("msan " + x for x in set(OPS.values()) - {"version"})
    assumptions = ["MemorySanitizer tracks every store of the library (all of it is instrumented; libc through interceptors)"]

    def plan(self, tier):
        q = self.quick if tier == "quick" else self.thorough
        return [("asan", q, self.batch, 0), ("msan", q, self.batch, 100000)]

    def cases(self, r, n, bi):
        out = [Case(VERSION, [])]
        while len(out) < n:
            x = r.random()
            if x < .25:
                p, _ = hostile_packet(r)
                out.append(Case(PARSE, [p, num(FRESH | (TEXTS | STREAM if r.random() < .5 else WALK | TEXTS))]))
            elif x < .4:
                t = G.any_type(r)
                rd, _ = any_rdata(r, t)
                out.append(Case(r.choice((RD2S, RTRIP, DOWNRDATA)) if len(rd) < 3000 else RD2S, [rd, num(t), num(1 if r.random() < .9 else 3)]))
            elif x < .6:
                if r.random() < .5:
                    t, s, w = spelled(r)
                    out.append(Case(S2RD, [s, num(t), num(1)]))
                else:
                    out += TXT.cases(r, 1, 0)
            elif x < .65:
                out.append(Case(NAMERT, [G.name(r)]))
            elif x < .8:
                out += RAW.cases(r, 1, 0)
            elif x < .95:
                t = G.any_type(r)
                a = rrset_args(any_name(r), t, 1 if r.random() < .9 else 3, G.u32(r), [any_rdata(r, t)[0][:2000] for _ in range(r.randrange(5))])
                op = r.choice((SER, SORT, DOWNRRSET, PRINT))
                out.append(Case(op, ([num(r.randrange(4))] if op == PRINT else []) + a))
            elif x < .97:
                lo = r.randrange(65536)
                out.append(Case(TABLES, [num(lo), num(min(65536, lo + 8))]))
            else:
                out += FILES.cases(r, 1, 0)
        for c in out:
            c.ctx = None
        return out[:n]

    def one_batch(self, exe, workdir, seed, bi, n, kind):
        if kind != "asan":
            o = Check.one_batch(self, exe, workdir, seed, bi, n, kind)
            o["tags"] = {kind + " " + k: v for k, v in o["tags"].items()}
            return o
        r = random.Random("%s:%s:%d" % (self.prop, seed, bi))
        cases = self.cases(r, n, bi)
        from vf.runner import SAN_ENV
        runs, viol, tags, seen = [], [], {}, set()
        rev = list(reversed(cases))
        crashed = set()
        for k, (cs, fill) in enumerate(((cases, FILL[bi % 3]), (rev, FILL[(bi + 1) % 3]))):
            res, crashes = run_batch(exe, cs, workdir, env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":" + fill +
                                     (":quarantine_size_mb=0:thread_local_quarantine_size_kb=0" if k else "")})
            if k:
                res = res[::-1]
                crashes = [(len(cases) - 1 - i, key, err) for i, key, err in crashes]
            runs.append(res)
            for i, key, err in crashes:
                crashed.add(i)
                viol.append((key, err, cases[i]))
        for c, a, b in zip(cases, *runs):
            if a is None or b is None:
                continue
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                viol.append(("result varies " + self.OPS[c.op], "%s of %s: field %d is once %s and once %s" % (
                    self.OPS[c.op], [x[:300].hex() for x in c.args[:5]], i, (a[i] if i < len(a) else b"").hex()[:600], (b[i] if i < len(b) else b"").hex()[:600]), c))
            v = self.judge(c, Reader(a))
            if v:
                viol.append((v[0], v[1], c))
            t = kind + " " + self.OPS[c.op]
            tags[t] = tags.get(t, 0) + 1
            seen.add(hashlib.blake2b(c.blob(), digest_size=8).digest())
        return {"n": 2 * (len(cases) - len(crashed)), "viol": viol[:30], "nviol": len(viol), "tags": tags, "seen": seen,
                "samples": [self.sample(cases[1], runs[0][1])] if runs[0][1] else []}

    def judge(self, case, rd):
        if not int.from_bytes(rd.f[-1], "little"):
            return "input modified " + self.OPS[case.op], "%s modifies its input %s" % (self.OPS[case.op], case.args[0].hex()[:2000])
        if case.op == ISSUB and not int.from_bytes(rd.f[2], "little"):
            return "input modified subdomain", "the second name is modified"
        if case.op == CMP and not int.from_bytes(rd.f[1], "little"):
            return "input modified compare", "a name is modified"
        return None

    def tag(self, case, res):
        return self.OPS[case.op]


CHECK = C()
