"""Runs one property's check: workload batches through an instrumented harness,
the property's oracle over everything the harness recorded."""
import hashlib, json, os, pickle, random, re, shutil, struct, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from . import build as B

HERE = B.HERE
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
NPROC = min(8, os.cpu_count() or 1)

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=1:"
                    "symbolize=1:handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1",
    "MSAN_OPTIONS": "exitcode=77:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=77:halt_on_error=1:second_deadlock_stack=1",
    "LC_ALL": "C",
}


# freed memory is given out again at once: what remembers an address is wrong
REUSE = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"] + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"}


class Inconclusive(Exception):
    pass


class Case:
    __slots__ = ("op", "args", "ctx", "tag")

    def __init__(self, op, args, ctx=None, tag=None):
        self.op, self.args, self.ctx, self.tag = op, args, ctx, tag

    def blob(self):
        a = b"".join(struct.pack("<I", len(x)) + x for x in self.args)
        return struct.pack("<IB", len(a) + 1, self.op) + a


def num(v):
    return struct.pack("<Q", v)


def split_results(blob):
    out, i, n = [], 0, len(blob)
    while i + 4 <= n:
        (t,) = struct.unpack_from("<I", blob, i)
        i += 4
        if i + t > n:
            break
        f, j = [], i
        e = i + t
        while j < e:
            (l,) = struct.unpack_from("<I", blob, j)
            f.append(blob[j + 4:j + 4 + l])
            j += 4 + l
        out.append(f)
        i = e
    return out


class Reader:
    """Walks the fields of one result."""

    def __init__(self, f):
        self.f, self.i = f, 0

    def b(self):
        v = self.f[self.i]
        self.i += 1
        return v

    def n(self):
        return int.from_bytes(self.b(), "little")

    def s(self):
        return self.b().decode("latin1")

    def left(self):
        return len(self.f) - self.i


NULL = b"\xff<NULL>"

_FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")


def crash_key(stderr, rc):
    """A stable name for a sanitizer report or a crash."""
    m = re.search(r"runtime error: (.*)", stderr)
    kind = None
    if m:
        kind = "ubsan: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)|WARNING: (MemorySanitizer|ThreadSanitizer): ([^(\n]*)", stderr)
    if m and not kind:
        kind = "asan: " + m.group(1) if m.group(1) else "%s: %s" % (m.group(2), m.group(3).strip())
    if not kind:
        m = re.search(r"Assertion `([^']*)' failed", stderr)
        kind = "assert: " + m.group(1) if m else "exit %s" % rc
    where = "?"
    for fn, loc in _FRAME.findall(stderr):
        if "/src/wdns/" in loc or "/src/libmy/" in loc:
            where = fn
            break
    return "%s in %s" % (kind, where)


def run_batch(exe, cases, workdir, timeout=60, env=None):
    """Returns (list of results or None per case, list of crashes)."""
    d = tempfile.mkdtemp(dir=workdir)
    inp, outp, prog, errp = (os.path.join(d, x) for x in ("in", "out", "prog", "err"))
    stop = os.path.join(workdir, "HANG")
    with open(inp, "wb") as f:
        for c in cases:
            f.write(c.blob())
    e = dict(os.environ)
    e.update(SAN_ENV)
    if env:
        e.update(env)
    results = [None] * len(cases)
    crashes = []
    todo = [(0, len(cases))]

    def launch(start, count, tmo):
        with open(errp, "w+b") as ef:
            p = subprocess.Popen([exe, inp, outp, prog, str(start), str(count)], env=e, cwd=d,
                                 stdout=subprocess.DEVNULL, stderr=ef)
            t0, rc = time.time(), None
            while rc is None:
                try:
                    rc = p.wait(timeout=1)
                except subprocess.TimeoutExpired:
                    # another worker has found a hang already: stop
                    if time.time() - t0 > tmo or os.path.exists(stop):
                        p.kill()
                        p.wait()
                        rc = "timeout"
            ef.seek(0)
            return rc, ef.read(1 << 20).decode("utf8", "replace")

    def where():
        with open(prog, "rb") as f:
            return struct.unpack("<I", f.read(4))[0] - 1

    while todo:
        start, end = todo.pop()
        if start >= end:
            continue
        rc, err = launch(start, end - start, timeout)
        if rc == 0:
            with open(outp, "rb") as f:
                rs = split_results(f.read())
            if len(rs) != end - start:
                raise Inconclusive("harness returned %d results for %d cases" % (len(rs), end - start))
            results[start:end] = rs
            continue
        if isinstance(rc, int) and 90 <= rc <= 99:
            raise Inconclusive("harness: " + err[-500:])
        k = where()
        if not start <= k < end:
            raise Inconclusive("harness died outside a case (rc %s): %s" % (rc, err[-800:]))
        if rc == "timeout":
            # slow machine or a hang?  The one case alone decides.
            rc2, err2 = launch(k, 1, 30) if not os.path.exists(stop) else (None, "")
            if os.path.exists(stop):
                break       # a hang is being reported already
            if rc2 == 0:
                if end - start <= 1:
                    todo.append((start, end))
                else:
                    mid = (start + end) // 2
                    todo += [(start, mid), (mid, end)]
                timeout = timeout * 2
                if timeout > 2000:
                    raise Inconclusive("batch too slow")
                continue
            if rc2 == "timeout":
                crashes.append((k, "hang", "no answer within 30 s from one case"))
                open(stop, "w").close()
                break       # each hang costs minutes; one is enough
            else:
                crashes.append((k, crash_key(err2, rc2), err2))
        else:
            crashes.append((k, crash_key(err, rc), err))
        if len(crashes) > 12:
            break
        todo += [(start, k), (k + 1, end)]
    shutil.rmtree(d, ignore_errors=True)
    return results, crashes


class Check:
    """One property.  Subclasses define cases() and judge()."""
    prop = None
    kind = "asan"
    driver = ("driver", ["driver.c"], {})
    batch = 1500
    quick = 40            # batches
    thorough = 1200
    rule = ""
    level = "exploration"
    min_tags = ()         # tags which have to have been seen
    assumptions = []
    extra_kinds = ()
    msan = 0            # share of the cases which also run under MemorySanitizer

    def cases(self, r, n, bi):
        raise NotImplementedError

    def judge(self, case, rd):
        """None, or (key, message)."""
        raise NotImplementedError

    def nontrivial(self, case, res):
        return True

    def tag(self, case, res):
        return case.tag

    # ---- worker side
    def one_batch(self, exe, workdir, seed, bi, n, kind):
        r = random.Random("%s:%s:%d" % (self.prop, seed, bi))
        cases = self.cases(r, n, bi)
        res, crashes = run_batch(exe, cases, workdir, env=REUSE if kind == "asan" and bi % 3 == 2 else None)
        viol, tags, seen, samples = [], {}, set(), []
        crashed = {k for k, _, _ in crashes}
        for k, key, err in crashes:
            viol.append((self.crash_name(cases[k], key), err, cases[k]))
        for k, c in enumerate(cases):
            f = res[k]
            if f is None:
                continue
            try:
                v = self.judge(c, Reader(f))
            except (IndexError, struct.error, UnicodeDecodeError) as e:
                v = ("malformed-result", "unexpected shape of the result: %r\n%s" % (e, traceback.format_exc()))
            if v:
                viol.append((v[0], v[1], c))
            t = self.tag(c, f)
            for x in (t if isinstance(t, (list, tuple, set)) else [t]):
                tags[x] = tags.get(x, 0) + 1
            if self.nontrivial(c, f):
                seen.add(hashlib.blake2b(c.blob(), digest_size=8).digest())
                if len(samples) < 1:
                    samples.append(self.sample(c, f))
        return {"n": len(cases) - len(crashed), "viol": viol[:30], "nviol": len(viol), "tags": tags, "seen": seen,
                "samples": samples}

    def sample(self, c, f):
        return {"op": c.op, "args": [a[:80].hex() + ("..." if len(a) > 80 else "") for a in c.args[:6]],
                "result_fields": len(f), "tag": str(self.tag(c, f))}

    # ---- building
    def build(self, b, kind):
        nm, src, kw = self.driver
        return b.harness(nm, kind, src, **kw)

    # ---- coverage-guided search for further cases
    fuzz = 0              # seconds in the quick tier (0: none)
    fuzz_thorough = 600
    fuzz_env = {}

    def from_fuzz(self, op, args):
        """The Case a found unit stands for, with the oracle's context; or
        None where the property does not say what has to happen."""
        return Case(op, args, None, "found")

    def fuzz_seeds(self, r, bi):
        return self.cases(r, 400, bi)

    def fuzz_judge(self, case, rd):
        return self.judge(case, rd)

    def crash_name(self, case, key):
        """The key of a crash: that of its place, or that of the input where
        the input is what a known finding names."""
        return key

    # ---- driver side
    def plan(self, tier):
        """[(kind, number of batches, cases per batch, first batch index)]"""
        q = self.quick if tier == "quick" else self.thorough
        out = [(self.kind, q, self.batch, 0)]
        if "msan" in self.extra_kinds and self.msan:
            # the same cases where nothing that was never written may decide
            out.append(("msan", max(2, int(q * self.msan)), self.batch, 500000))
        return out

    def extra(self, ctx):
        """Further work of a check: add to ctx.viol / ctx.tags / ctx.n ..."""


FOUND = ("; besides, a coverage-guided search (libFuzzer, ASan+UBSan) starts from such cases and varies them argument by "
         "argument, and every case it keeps because it reaches new code is run and judged by the same monitor")


def full_rule(check):
    return check.rule + (FOUND if check.fuzz else "")


class Ctx:
    pass


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    out = {}
    for e in json.load(open(p)).get("findings", []):
        if e["property"] == prop:
            out[e["key"]] = e["what"]
    return out


_G = {}


def _work(a):
    exe, workdir, seed, bi, n, kind = a
    try:
        return _G["check"].one_batch(exe, workdir, seed, bi, n, kind)
    except Inconclusive as e:
        return {"inconclusive": str(e)}


def split_unit(b):
    """op and arguments of a unit (one case without its length)."""
    if not b:
        return None
    args, i = [], 1
    while i < len(b):
        if i + 4 > len(b):
            return None
        (l,) = struct.unpack_from("<I", b, i)
        if i + 4 + l > len(b):
            return None
        args.append(b[i + 4:i + 4 + l])
        i += 4 + l
    return b[0], args


def _fuzz_seed(a):
    d, seed, w = a
    check = _G["check"]
    r = random.Random("%s:fuzz:%s:%d" % (check.prop, seed, w))
    cs = check.fuzz_seeds(r, w)
    n = 0
    for c in cs:
        b = c.blob()[4:]
        if len(b) <= 3000:
            with open(os.path.join(d, "s%05d" % n), "wb") as f:
                f.write(b)
            n += 1
    return n


def _fuzz_run(a):
    exe, d, art, secs, seed, w = a
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(_G["check"].fuzz_env)
    cmd = [exe, "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % secs, "-max_len=4096", "-len_control=0", "-timeout=20",
           "-rss_limit_mb=3000", "-artifact_prefix=%s/" % art, "-print_final_stats=1", "-use_value_profile=%d" % (w % 2),
           "-reduce_inputs=0", "-verbosity=1", d]
    with open(os.path.join(art, "log"), "wb") as lf:
        p = subprocess.Popen(cmd, env=e, cwd=art, stdout=subprocess.DEVNULL, stderr=lf)
        try:
            p.wait(timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    log = open(os.path.join(art, "log"), errors="replace").read()
    m = re.search(r"stat::number_of_executed_units: (\d+)", log)
    c = re.findall(r"cov: (\d+) ft: (\d+)", log)
    return (int(m.group(1)) if m else 0, int(c[-1][0]) if c else 0, int(c[-1][1]) if c else 0, log[-3000:])


def _fuzz_judge(a):
    exe, workdir, blobs = a
    check = _G["check"]
    cases = []
    for b in blobs:
        u = split_unit(b)
        c = check.from_fuzz(*u) if u else None
        if c is not None:
            cases.append(c)
    out = {"n": len(cases), "viol": [], "nviol": 0, "tags": {}, "seen": set(), "samples": []}
    if not cases:
        return out
    try:
        res, crashes = run_batch(exe, cases, workdir)
    except Inconclusive as e:
        return {"inconclusive": str(e)}
    viol = [(key, err, cases[k]) for k, key, err in crashes]
    for k, c in enumerate(cases):
        if res[k] is None:
            continue
        try:
            v = check.fuzz_judge(c, Reader(res[k]))
        except (IndexError, struct.error, UnicodeDecodeError) as e:
            v = ("malformed-result", "unexpected shape of the result: %r\n%s" % (e, traceback.format_exc()))
        if v:
            viol.append((v[0], v[1], c))
        out["seen"].add(hashlib.blake2b(c.blob(), digest_size=8).digest())
    out["viol"], out["nviol"] = viol[:30], len(viol)
    return out


def fuzz_stage(check, ctx, seed, tier):
    """Coverage-guided search from the check's own cases; every unit it keeps
    (it reached new code or new comparisons), and every one that crashed or
    hung, is replayed in the asan build and judged."""
    secs = check.fuzz if tier == "quick" else check.fuzz_thorough
    exe = check.build(ctx.builder, "fuzz")
    judges = []
    for kind in (check.kind,) + tuple(check.extra_kinds):
        if kind not in ctx.exes:
            ctx.exes[kind] = check.build(ctx.builder, kind)
        judges.append(ctx.exes[kind])
    base = os.path.join(ctx.scratch, "fuzz")
    dirs, arts = [], []
    for w in range(NPROC):
        for l, k in ((dirs, "c%d"), (arts, "a%d")):
            d = os.path.join(base, k % w)
            os.makedirs(d)
            l.append(d)
    with ProcessPoolExecutor(max_workers=NPROC) as ex:
        ns = list(ex.map(_fuzz_seed, [(dirs[w], seed, w) for w in range(NPROC)]))
        rs = list(ex.map(_fuzz_run, [(exe, dirs[w], arts[w], secs, seed, w) for w in range(NPROC)]))
        seen, units = set(), []
        for d in dirs + arts:
            for f in sorted(os.listdir(d)):
                if f == "log" or (d in dirs and f.startswith("s0")):
                    continue
                b = open(os.path.join(d, f), "rb").read()
                h = hashlib.blake2b(b, digest_size=8).digest()
                if h not in seen:
                    seen.add(h)
                    units.append(b)
        units.sort(key=lambda b: hashlib.blake2b(b, digest_size=8).digest())
        n = 400
        jobs = [(j, ctx.scratch, units[i:i + n]) for j in judges for i in range(0, len(units), n)]
        judged = 0
        for o in ex.map(_fuzz_judge, jobs):
            if "inconclusive" in o:
                raise Inconclusive(o["inconclusive"])
            judged += o["n"]
            ctx.n += o["n"]
            ctx.viol += o["viol"]
            ctx.nviol += o["nviol"]
            ctx.seen |= o["seen"]
    ctx.notes["coverage_guided"] = {"seeds": sum(ns), "executions": sum(r[0] for r in rs), "edges_covered": max(r[1] for r in rs),
                                    "features_covered": max(r[2] for r in rs), "units_kept": len(units), "units_judged": judged,
                                    "seconds": secs}
    if not sum(r[0] for r in rs):
        raise Inconclusive("the search did not run: " + rs[0][3])


def save_replay(prop, i, key, msg, case):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%d.pickle" % (prop, i))
    with open(p, "wb") as f:
        pickle.dump({"property": prop, "key": key, "op": getattr(case, "op", None),
                     "args": getattr(case, "args", None), "ctx": getattr(case, "ctx", None),
                     "tag": getattr(case, "tag", None), "payload": None if isinstance(case, Case) else case}, f)
    with open(p[:-7] + ".txt", "w") as f:
        f.write("property %s\n%s\n\n%s\n" % (prop, key, msg))
        if isinstance(case, Case):
            f.write("\nop %d\n" % case.op + "\n".join("arg %s" % a.hex() for a in case.args))
        else:
            f.write("\n%r\n" % (case,))
    return p


def run_check(check, tier, seed):
    t0 = time.time()
    prop = check.prop
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    ctx = Ctx()
    ctx.tier, ctx.seed, ctx.scratch = tier, seed, scratch
    ctx.viol, ctx.tags, ctx.n, ctx.seen, ctx.samples = [], {}, 0, set(), []
    ctx.notes = {}
    ctx.nviol = 0
    try:
        try:
            ctx.builder = b = B.Builder(scratch)
            check.tier, check.seed = tier, seed
            plan = check.plan(tier)
            exes = ctx.exes = {}
            for kind, *_ in plan:
                if kind not in exes:
                    exes[kind] = check.build(b, kind)
        except B.BuildError as e:
            print("ERROR: the tree under test does not build for this check\n%s" % e)
            return 2
        _G["check"] = check
        jobs = []
        for kind, nb, n, first in plan:
            jobs += [(exes[kind], scratch, seed, first + i, n, kind) for i in range(nb)]
        ctx.per_kind = {}
        if jobs:
            with ProcessPoolExecutor(max_workers=NPROC) as ex:
                futs = {ex.submit(_work, j): j for j in jobs}
                for f in as_completed(futs):
                    o = f.result()
                    if "inconclusive" in o:
                        raise Inconclusive(o["inconclusive"])
                    k = futs[f][5]
                    ctx.per_kind[k] = ctx.per_kind.get(k, 0) + o["n"]
                    ctx.n += o["n"]
                    ctx.seen |= o["seen"]
                    ctx.viol += o["viol"]
                    ctx.nviol += o["nviol"]
                    if len(ctx.samples) < 4:
                        ctx.samples += o["samples"]
                    for t, v in o["tags"].items():
                        ctx.tags[t] = ctx.tags.get(t, 0) + v
                    if len(ctx.viol) > 200 or any(v[0] == "hang" for v in o["viol"]):
                        for g in futs:
                            g.cancel()
                        break
        if check.fuzz and not ctx.viol:
            fuzz_stage(check, ctx, seed, tier)
        check.extra(ctx)
        ctx.nviol = max(ctx.nviol, len(ctx.viol))
    except Inconclusive as e:
        print("INCONCLUSIVE: %s" % e)
        return 2
    except B.BuildError as e:
        print("ERROR: the tree under test does not build for this check\n%s" % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(prop)
    rc, new, shown = 0, {}, set()
    for key, msg, case in ctx.viol:
        if key in known:
            if key not in shown:
                shown.add(key)
                print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
            continue
        new.setdefault(key, []).append((msg, case))
    i = 0
    for key, l in sorted(new.items(), key=lambda kv: kv[0])[:8]:
        msg, case = min(l, key=lambda mc: len(mc[1].blob()) if isinstance(mc[1], Case) else 0)
        p = save_replay(prop, i, key, msg, case)
        i += 1
        print("--- %s (%d cases)\n%s" % (key, len(l), msg[:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(p, HERE)))
        rc = 1
    missing = [t for t in check.min_tags if not ctx.tags.get(t)]
    if rc == 0 and (missing or not ctx.seen):
        print("INCONCLUSIVE: the workload did not reach %s" % (missing or "anything"))
        return 2
    tags = sorted(((str(k), v) for k, v in ctx.tags.items() if k is not None), key=lambda kv: -kv[1])
    cov = {"evaluations": ctx.n, "distinct_nontrivial": len(ctx.seen), "rule": full_rule(check),
           "samples": ctx.samples[:4], "observed": dict(tags[:120]), "distinct_observed_kinds": len(tags),
           "evaluations_per_build": ctx.per_kind}
    cov.update(ctx.notes)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violation kinds, %.1f s" % (
        prop, tier, ctx.n, len(ctx.seen), len(new), time.time() - t0))
    return rc


def replay(check, path):
    with open(path, "rb") as f:
        o = pickle.load(f)
    scratch = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        b = B.Builder(scratch)
        if o["op"] is None:
            print("replay payload: %r" % (o["payload"],))
            return check.replay_payload(b, o["payload"]) if hasattr(check, "replay_payload") else 0
        c = Case(o["op"], o["args"], o["ctx"], o["tag"])
        for kind in (check.kind,) + tuple(check.extra_kinds):
            res, crashes = run_batch(check.build(b, kind), [c], scratch)
            if crashes:
                print(crashes[0][1], crashes[0][2], sep="\n")
                print("VIOLATION property=%s replay=%s" % (check.prop, path))
                return 1
            v = check.judge(c, Reader(res[0]))
            if v:
                print(v[0], v[1], sep="\n")
                print("VIOLATION property=%s replay=%s" % (check.prop, path))
                return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
