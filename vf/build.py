"""Builds harnesses from /repo's current working tree into a scratch directory.

Nothing is taken from the in-tree build except config.h (which no source edit
changes); the generated files are generated again from wdns.h.in and the
generator scripts of the tree under test.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = ["-g", "-fno-omit-frame-pointer", "-Wno-everything"]
KINDS = {
    # not optimised: a read whose result happens not to matter is a read all the same
    "asan": ("clang", ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
    "msan": ("clang", ["-O0", "-fsanitize=memory", "-fno-sanitize-recover=all",
                       "-fsanitize-memory-track-origins=1"]),
    "tsan": ("clang", ["-O1", "-fsanitize=thread"]),
    # alignment as the C library's own allocator gives it
    "ubsan": ("clang", ["-O0", "-fsanitize=undefined", "-fno-sanitize-recover=all"]),
    "plain": ("gcc", ["-O2"]),
    # instrumented like tsan, but the harness itself takes the callbacks
    "sched": ("clang", ["-O1", "-DVF_SCHED"]),
    # coverage-guided: finds inputs, which the asan build then judges
    "fuzz": ("clang", ["-O1", "-DVF_FUZZ", "-fsanitize=address,undefined,fuzzer-no-link",
                       "-fno-sanitize-recover=all"]),
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode("utf8", "replace")[-6000:]))
    return r.stdout


def library_sources():
    """The library's sources, as its own build file lists them."""
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"^wdns_libwdns_la_SOURCES\s*=((?:.*\\\n)*.*\n)", mk, re.M)
    if not m:
        raise BuildError("Makefile.am: no wdns_libwdns_la_SOURCES")
    return [w for w in m.group(1).replace("\\", " ").split() if w.endswith(".c")]


class Tree:
    """Generated headers and sources of the tree under test."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.gen = os.path.join(scratch, "gen")
        os.makedirs(os.path.join(self.gen, "wdns"))
        self.make_generated()

    def make_generated(self):
        hdr = open(os.path.join(REPO, "wdns", "wdns.h.in")).read()
        ac = open(os.path.join(REPO, "configure.ac")).read()
        v = []
        for part in ("major", "minor", "patchlevel"):
            m = re.search(r"m4_define\(\[?wdns_%s_version\]?,\s*\[?(\d+)\]?\)" % part, ac)
            v.append(m.group(1) if m else "0")
        for name, val in (("WDNS_VERSION", ".".join(v)), ("WDNS_MAJOR_VERSION", v[0]),
                          ("WDNS_MINOR_VERSION", v[1]), ("WDNS_PATCHLEVEL_VERSION", v[2])):
            hdr = hdr.replace("@%s@" % name, val)
        self.version = [int(x) for x in v]
        h = os.path.join(self.gen, "wdns", "wdns.h")
        with open(h, "w") as f:
            f.write(hdr)
        cfg = os.path.join(REPO, "config.h")
        if not os.path.exists(cfg):
            cfg = os.path.join(HERE, "harness", "config.fallback.h")
        shutil.copy(cfg, os.path.join(self.gen, "config.h"))
        for k in ("rcode", "rrclass", "rrtype"):
            run([sys.executable, os.path.join(REPO, "wdns", "gen_%s_to_str" % k), h,
                 os.path.join(self.gen, "wdns", "%s_to_str.c" % k)])
        # A copy of the sources with the generated files regenerated.
        self.src = os.path.join(self.scratch, "src")
        os.makedirs(os.path.join(self.src, "wdns"))
        shutil.copytree(os.path.join(REPO, "libmy"), os.path.join(self.src, "libmy"),
                        ignore=shutil.ignore_patterns("*.o", "*.lo", "m4", ".libs"))
        for f in glob.glob(os.path.join(REPO, "wdns", "*.[ch]")):
            shutil.copy(f, os.path.join(self.src, "wdns"))
        for f in glob.glob(os.path.join(self.gen, "wdns", "*")):
            shutil.copy(f, os.path.join(self.src, "wdns"))
        shutil.copy(os.path.join(self.gen, "config.h"), self.src)

    def includes(self):
        return ["-include", os.path.join(self.src, "config.h"), "-I", self.src,
                "-I", os.path.join(self.src, "wdns")]


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.tree = Tree(scratch)
        self.libs = {}

    def compile_many(self, jobs):
        with ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(lambda j: run(j), jobs))

    def library(self, kind):
        """Objects of the whole library for one sanitizer."""
        if kind in self.libs:
            return self.libs[kind]
        cc, flags = KINDS[kind]
        d = os.path.join(self.scratch, "obj-" + kind)
        os.makedirs(d)
        jobs, objs = [], []
        for s in library_sources():
            o = os.path.join(d, s.replace("/", "_") + ".o")
            objs.append(o)
            jobs.append([cc] + COMMON + flags + self.tree.includes() +
                        ["-include", os.path.join(self.tree.src, "wdns", "wdns-private.h")] +
                        ["-c", os.path.join(self.tree.src, s), "-o", o])
        self.compile_many(jobs)
        self.libs[kind] = objs
        return objs

    def harness(self, name, kind, sources, lib=True, extra=(), libmy=(), link=(), flags_for=None):
        """Compile harness sources (from /verif/harness) and link them."""
        cc, flags = KINDS[kind]
        objs = list(self.library(kind)) if lib else []
        d = os.path.join(self.scratch, "h-%s-%s" % (name, kind))
        os.makedirs(d)
        jobs = []
        libsrc = set(library_sources())
        for s in libmy:
            o = os.path.join(d, "my_" + os.path.basename(s) + ".o")
            # as the library's own build does
            xf = ["-include", os.path.join(self.tree.src, "wdns", "wdns-private.h")] if s in libsrc else []
            jobs.append([cc] + COMMON + flags + self.tree.includes() + list(extra) + xf +
                        ["-c", os.path.join(self.tree.src, s), "-o", o])
            objs.append(o)
        for s in sources:
            o = os.path.join(d, os.path.basename(s) + ".o")
            fl = flags
            if kind == "fuzz" and s == "driver.c":      # nothing of the library in it
                fl = [f.replace(",fuzzer-no-link", "") for f in flags]
            jobs.append([cc] + COMMON + fl + self.tree.includes() + list(extra) +
                        list((flags_for or {}).get((kind, s), ())) +
                        ["-I", os.path.join(HERE, "harness"), "-c",
                         os.path.join(HERE, "harness", s), "-o", o])
            objs.append(o)
        self.compile_many(jobs)
        exe = os.path.join(d, name)
        lf = list(flags)
        if kind == "fuzz":
            lf = [f.replace("fuzzer-no-link", "fuzzer") for f in lf]
        run([cc] + lf + objs + ["-o", exe, "-lpthread"] + list(link))
        return exe
