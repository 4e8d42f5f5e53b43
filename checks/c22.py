import hashlib, shutil, subprocess, tempfile
from .common import *
from vf.runner import SAN_ENV, crash_key
from .c02 import any_rdata
from .c03 import CHECK as TXT
from .c14 import spelled


class C(Check):
    prop = "C22"
    kind = "tsan"
    extra_kinds = ("plain",)
    # C library functions with one result object for the whole process
    HIDDEN = ("strtok inet_ntoa gmtime localtime ctime asctime strerror strsignal rand random srand srandom drand48 lrand48 ether_ntoa "
              "ether_aton gethostbyname getservbyname getservbyport getprotobyname getprotobynumber setlocale setenv putenv unsetenv "
              "ecvt fcvt l64a dirname").split()
    driver = ("threads", ["threads.c", "nonmt.c"], {"link": ["-Wl,--wrap=" + x for x in HIDDEN]})
    technique = "ThreadSanitizer, and comparison of concurrent with sequential results"
    rule = ("2 to 8 threads run the same mixed calls on objects of their own, released together at the first call of a fresh "
            "process, in step, rotated, in opposite directions or call by call: ThreadSanitizer watches every access for races, "
            "and every thread's result is compared with the same call made alone afterwards; the plain build repeats the calls "
            "for many rounds at full speed; non-trivial: distinct calls")
    min_tags = ("tsan parse", "tsan render", "tsan text", "tsan name", "tsan rrset", "tsan tables", "tsan file", "tsan strtab", "plain parse", "plain text",
                "tsan mode 0", "tsan mode 1", "tsan mode 2", "tsan mode 3", "tsan mode 4")
    assumptions = ["ThreadSanitizer reports a race whenever two conflicting accesses of an execution are unordered and both are still in its history; "
                   "the C library's own functions are covered by its interceptors, and those that answer from one object of the "
                   "process by wrappers that write a word without synchronisation"]

    def plan(self, tier):
        q = (90, 24) if tier == "quick" else (3000, 600)
        return [("tsan", q[0], 70, 0), ("plain", q[1], 120, 100000)]

    def cases(self, r, n, bi):
        out = []
        types = [r.choice(G.ALLTYPES) for _ in range(4)] if r.random() < .5 else G.ALLTYPES
        while len(out) < n:
            x = r.random()
            if x < .25:
                p, _ = hostile_packet(r) if r.random() < .3 else G.message(r, types=r.choice((None, types)))
                if len(p) > 5000:
                    continue
                out.append(Case(PARSE, [p, num(TEXTS | WALK)], tag="parse"))
            elif x < .4:
                t = r.choice(types) if r.random() < .9 else r.choice(G.OPAQUE)
                rd = any_rdata(r, t)[0][:1500]
                out.append(Case(r.choice((RD2S, RTRIP, DOWNRDATA)), [rd, num(t), num(1)], tag="render"))
            elif x < .65:
                if r.random() < .7:
                    t, s, w = spelled(r)
                    out.append(Case(S2RD, [s[:4000], num(t), num(1)], tag="text"))
                else:
                    out += [c for c in TXT.cases(r, 1, 0) if len(c.args[0]) < 4000 and c.op == S2RD]
            elif x < .75:
                nm = G.name(r)
                op = r.choice((NAMERT, D2S, COUNT, LCHOP, REV, DOWNNAME, S2N, UNPACK, SKIP))
                out.append(Case(op, [D.name_text(nm).encode("latin1"), num(r.randrange(2))] if op == S2N else [nm, num(0)] if op in (UNPACK, SKIP) else [nm], tag="name"))
            elif x < .88:
                t = r.choice(types)
                a = rrset_args(G.name(r), t, 1, G.u32(r), [G.rdata(r, t)[:600] for _ in range(r.randrange(5))])
                op = r.choice((SER, SORT, DOWNRRSET, RRSETSTR, PRINT))
                out.append(Case(op, ([num(r.randrange(4))] if op in (RRSETSTR, PRINT) else []) + a, tag="rrset"))
            elif x < .92:
                lo = r.randrange(65535)
                out.append(Case(TABLES, [num(lo), num(min(65536, lo + 8))], tag="tables"))
            elif x < .96:
                out.append(Case(STRTAB, [r.choice(list(D.TYPES.values()) + list(D.RCODES.values()) + ["TYPE77", "CLASS9", "IN"]).encode()], tag="strtab"))
            else:
                out.append(Case(FILELOAD, [b"names", b"\n".join(D.name_text(G.name(r)).encode("latin1") for _ in range(4))], tag="file"))
        r.shuffle(out)
        return out

    def execute(self, exe, workdir, cases, nthr, mode, rounds, timeout=300):
        d = tempfile.mkdtemp(dir=workdir)
        inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "wb") as f:
            for c in cases:
                f.write(c.blob())
        e = dict(os.environ)
        e.update(SAN_ENV)
        try:
            p = subprocess.run([exe, inp, outp, os.path.join(d, "p"), str(nthr), str(mode), str(rounds)], env=e, cwd=d,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the threads did not finish in %d s" % timeout)
        err = p.stderr.decode("utf8", "replace")
        if isinstance(p.returncode, int) and 90 <= p.returncode <= 99:
            raise Inconclusive("harness: rc %d %s" % (p.returncode, err[-500:]))
        if p.returncode:
            return (crash_key(err, p.returncode), err), []
        rows = [tuple(int(x) for x in l.split()) for l in open(outp)]
        shutil.rmtree(d, ignore_errors=True)
        return None, rows

    def one_batch(self, exe, workdir, seed, bi, n, kind):
        r = random.Random("%s:%s:%d" % (self.prop, seed, bi))
        cases = self.cases(r, n, bi)
        nthr, mode = r.choice((2, 3, 4, 8)), bi % 5
        rounds = 1 if kind == "tsan" else 12
        crash, rows = self.execute(exe, workdir, cases, nthr, mode, rounds)
        viol, tags, seen = [], {}, set()
        payload = (kind, nthr, mode, rounds, [(c.op, c.args) for c in cases])
        if crash:
            viol.append((crash[0], crash[1], payload))
        for c, (who, ln) in zip(cases, rows):
            if who >= 0:
                viol.append(("result differs op %d" % c.op, "operation %d(%s) gives another result %s" % (
                    c.op, ", ".join(a[:200].hex() for a in c.args[:4]), "the second time" if who == 1000 else "in thread %d of %d" % (who, nthr)), payload))
        for c in cases if not crash else []:
            k = kind + " " + c.tag
            tags[k] = tags.get(k, 0) + nthr * rounds
            seen.add(hashlib.blake2b(c.blob(), digest_size=8).digest())
        tags["%s mode %d" % (kind, mode)] = 1
        tags["%s processes with %d threads" % (kind, nthr)] = 1
        smp = [{"threads": nthr, "mode": mode, "rounds": rounds, "build": kind, "calls": len(cases), "first": [cases[0].op, cases[0].args[0][:40].hex()]}]
        return {"n": len(rows) * nthr * rounds, "viol": viol[:10], "nviol": len(viol), "tags": tags, "seen": seen, "samples": smp}

    def replay_payload(self, b, payload):
        kind, nthr, mode, rounds, cs = payload
        cases = [Case(o, a) for o, a in cs]
        exe = self.build(b, kind)
        for i in range(30):
            crash, rows = self.execute(exe, b.scratch, cases, nthr, mode, rounds)
            if crash or any(w >= 0 for w, _ in rows):
                print(crash[0], crash[1], sep="\n") if crash else print("results differ")
                print("VIOLATION property=%s" % self.prop)
                return 1
        print("not reproduced in 30 runs")
        return 0


CHECK = C()
