from .common import *
from .c02 import any_rdata, any_name
from .c03 import CHECK as TXT
from .c04 import buffer, ser


class C(Check):
    prop = "C05"
    batch, quick, thorough = 1200, 48, 1800
    fuzz = 8
    technique = "allocation monitor (malloc/free hooks) per operation"
    rule = ("every operation, successful and failing, under an allocation monitor (malloc/free hooks): blocks the call "
            "allocated minus blocks released, after the documented release, has to be zero, outputs of failed calls empty; "
            "clearing twice; distinct = distinct inputs")
    min_tags = ("parse refused", "parse accepted", "text refused", "text read", "name refused", "name read", "deserialize refused",
                "deserialize done", "render", "rrset", "file", "file refused")
    assumptions = ["the sanitizer's malloc/free hooks see every allocation of the library (confirmed by the monitor's self test)"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            x = r.random()
            if x < .4:
                p, fl = hostile_packet(r)
                out.append(Case(PARSE, [p, num(TEXTS | WALK | (STREAM if i % 3 == 0 else 0))], tag="parse"))
            elif x < .55:
                t = G.any_type(r)
                rd, _ = any_rdata(r, t)
                out.append(Case(r.choice((RD2S, RTRIP)) if len(rd) < 3000 else RD2S, [rd, num(t), num(1 if r.random() < .9 else 3)], tag="render"))
            elif x < .62:
                t = G.any_type(r)
                rds = [any_rdata(r, t)[0] for _ in range(r.randrange(4))]
                a = rrset_args(any_name(r), t, 1, G.u32(r), rds)
                op = r.choice((SER, SORT, DOWNRRSET, PRINT))
                out.append(Case(op, ([num(r.randrange(4))] if op == PRINT else []) + a, tag="rrset"))
            elif x < .7:
                out.append(Case(DESER, [ser(r)], tag="deserialize"))
            elif x < .95:
                out += TXT.cases(r, 1, 0)
            else:
                lines = [D.name_text(G.name(r)).encode("latin1") for _ in range(r.randrange(4))]
                if r.random() < .5:
                    lines.insert(r.randrange(len(lines) + 1), r.choice((b"a..b", b"\\", b"x" * 70, b"\\999")))
                out.append(Case(FILELOAD, [b"names.txt", b"\n".join(lines)] if r.random() < .9 else [b"nosuchfile"], tag="file"))
        return out

    def from_fuzz(self, op, args):
        return Case(op, args, None, {PARSE: "parse", RD2S: "render", RTRIP: "render", DESER: "deserialize"}.get(op, "rrset"))

    def judge(self, case, rd):
        leak = int.from_bytes(rd.f[-2], "little", signed=True)
        what = self.tag(case, rd.f)
        if leak != 0:
            return "leak " + str(what), "%d blocks more allocated than released after: %s" % (leak, what)
        res = rd.n()
        if case.op == PARSE:
            rest = rd.f[-3]
            if not int.from_bytes(rest, "little"):
                return ("parse-not-empty", "the message is not empty after %s" %
                        ("a refused packet" if res else "wdns_clear_message()"))
        if case.op == DESER and res and not rd.n():
            return "deserialize-not-empty", "the RRset is not empty after a refusal"
        if case.op == FILELOAD:
            rd.i = 0
            # the names delivered come first
            if int.from_bytes(rd.f[-3], "little") != 1:
                return "file-left-open", "a file descriptor more is open after loading"
        return None

    def tag(self, case, res):
        bad = int.from_bytes(res[0], "little") if len(res[0]) == 8 else 0
        if case.op == PARSE:
            return "parse refused" if bad else "parse accepted"
        if case.op == DESER:
            return "deserialize refused" if bad else "deserialize done"
        if case.op == S2RD:
            return "text refused" if bad else "text read"
        if case.op == S2N:
            return "name refused" if bad else "name read"
        if case.op == FILELOAD:
            return "file refused" if int.from_bytes(res[-6], "little") else "file"
        return case.tag


CHECK = C()
