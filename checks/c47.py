import os
import struct
from .common import *
from vf import build as B

FILE, HEX, PCAP, USAGE, VERSION = range(1, 6)
TOOLS = ("print-message", "serialize-rrset", "deserialize-rrset", "downcase-rrset")


def pcap(pkts, snap=65535, magic=0xa1b2c3d4, order="<"):
    b = struct.pack(order + "IHHiIII", magic, 2, 4, 0, 0, snap, 1)
    for k, p in enumerate(pkts):
        b += struct.pack(order + "IIII", 1700000000 + k, k, len(p), len(p)) + p
    return b


def frame(r, dns, opts=None):
    """A DNS message in UDP in IPv4 in Ethernet."""
    ihl = 5 + (r.choice((0, 0, 0, 1, 3, 10)) if opts is None else opts)
    udp = struct.pack(">HHHH", r.choice((53, r.randrange(65536))), 53, min(65535, 8 + len(dns)), r.randrange(65536)) + dns
    ip = struct.pack(">BBHHHBBH4s4s", 0x40 | ihl, 0, min(65535, ihl * 4 + len(udp)), r.randrange(65536), 0, 64, 17, 0, b"\x0a\0\0\1", b"\x0a\0\0\2") + bytes(r.randrange(256) for _ in range(ihl * 4 - 20))
    return bytes(r.randrange(256) for _ in range(12)) + b"\x08\0" + ip + udp


def serialized(r):
    """A serialized RRset, whole or not."""
    t = G.any_type(r)
    nm = G.name(r)
    rds = [G.rdata(r, t)[:5000] if r.random() < .8 else G.rbytes(r, r.randrange(30)) for _ in range(r.choice((0, 1, 1, 2, 5)))]
    b = bytes([len(nm)]) + nm + struct.pack("<HHIH", t, G.any_class(r), G.u32(r), len(rds)) + b"".join(struct.pack("<H", len(x)) + x for x in rds)
    x = r.random()
    return b[:r.randrange(len(b))] if x < .15 else b[:max(1, len(b) - r.choice((1, 1, 2)))] if x < .2 else b


def ip_defect(f):
    """What of known_findings.json a frame shows, or None: the program reads
    the IP header without asking whether it was captured, and takes a total
    length below the header's for an enormous one."""
    if len(f) < 14 or f[12:14] != b"\x08\0":
        return None
    n = len(f) - 14
    ihl = f[14] & 15 if n else 0
    if n < 4 and ihl * 4 <= n:
        return "IP header not captured"
    if ihl * 4 <= n and struct.unpack_from(">H", f, 16)[0] < ihl * 4:
        return "IP length less than the header's"
    return None


class C47(Check):
    prop = "C47"
    driver = ("tools", ["tools.c"] + ["h_tool_%s.c" % x for x in ("dump_file", "dump_pcap", "print", "serialize", "deserialize", "downcase", "version")],
              {"lib": True, "extra": ["-I", B.REPO], "link": ["-lpcap"]})
    batch, quick, thorough = 250, 64, 3000
    technique = "ASan+UBSan with every packet in an allocation of its own; output compared with the library's own rendering, the dump file with the packets that were refused"
    rule = ("the seven programs run on well-formed, mutated and random messages, RRsets, hex texts, capture files with truncated headers, IP options, padding and lengths that do not add up, "
            "absent files and wrong numbers of arguments; non-trivial: distinct inputs")
    min_tags = tuple(TOOLS) + ("dump-file", "dump-pcap", "refused", "printed", "not hex", "hostile frame", "short frame", "padded frame", "options in IP", "version", "usage", "file too long", "dumped")
    assumptions = ["a file of the buffer's size or more is refused by wdns-dump-file; frames whose IP header is shorter than the standard's are judged for memory safety only"]

    def message(self, r):
        x = r.random()
        if x < .5:
            return G.message(r)[0]
        if x < .8:
            return hostile_packet(r)[0]
        return bytes(r.randrange(256) for _ in range(r.choice((0, 1, 11, 12, 13, 30, 200))))

    def cases(self, r, n, bi):
        out = []
        for _ in range(n):
            x = r.random()
            if x < .25:
                m = self.message(r)
                if r.random() < .02:
                    m = bytes(r.choice((4095, 4096, 4097, 9000)))
                out.append(Case(FILE, [m], tag=["dump-file"] + (["file too long"] if len(m) >= 4096 else [])))
            elif x < .6:
                w = r.randrange(4)
                raw = self.message(r)[:30000] if w < 2 else serialized(r)
                h = raw.hex()
                h = h.upper() if r.random() < .3 else "".join(r.choice((c, c.upper())) for c in h) if r.random() < .3 else h
                t = [TOOLS[w]]
                if r.random() < .1 or not raw:
                    k = r.randrange(len(h) + 1)
                    h = r.choice((h[:k] + r.choice("gG/:@`xz \n-\x7f\xe9\x01") + h[k + 1:], h[:k] + h[k + 1:], h + "0", ""))
                    t.append("not hex")
                out.append(Case(HEX, [num(w), h.encode("latin-1"), raw], h, tag=t))
            elif x < .97:
                out.append(self.capture(r))
            elif x < .99:
                w = r.randrange(6)
                a = r.choice((1, 2, 3, 4, 5)) if w == 5 else r.choice((1, 3, 4)) if w < 4 else r.choice((1, 2, 3))
                out.append(Case(USAGE, [num(w), num(a)], tag=["usage"]))
            else:
                out.append(Case(VERSION, [], tag=["version"]))
        if bi == 0:
            # the known findings, and nothing else that shows them
            f = frame(r, G.message(r)[0][:500], 0)
            for g in (f[:14], f[:14] + b"\x40\0", f[:14] + b"\x45\0\0\x13" + f[18:42] + bytes(6) + b"\xff\xff" + bytes(6)):
                out.append(Case(PCAP, [pcap([g])], ([g], [None]), tag=["dump-pcap", "known finding"]))
        return out

    def crash_name(self, case, key):
        if case.op == PCAP:
            for f in case.ctx[0]:
                if ip_defect(f) and "heap-buffer-overflow" in key:
                    return ip_defect(f)
        return key

    def capture(self, r):
        t = ["dump-pcap"]
        if r.random() < .35:
            # one frame whose lengths do not add up
            t.append("hostile frame")
            f = bytearray(frame(r, self.message(r)[:2000]))
            for _ in range(r.choice((1, 1, 2))):
                y = r.random()
                if len(f) < 20:
                    break
                if y < .35:
                    f[14] = 0x40 | r.randrange(16) if r.random() < .9 else r.randrange(256)
                elif y < .75:
                    f[16:18] = struct.pack(">H", r.choice((0, 1, 19, 20, 21, 27, 28, 29, 39, 40, 41, 60, 65535, r.randrange(65536), r.randrange(80))))
                else:
                    del f[r.choice((r.randrange(14, 64), r.randrange(len(f) + 1))):]
            f = bytes(f)
            if r.random() < .5:
                f = f[:r.choice((14, 15, 16, 17, 18, 20, 33, 34, 35, 41, 42, 43, 53, 54, len(f)))]
            if ip_defect(f):
                return self.capture(r)
            pkts, want = [f], [None]
            msgs = []
            ihl = f[14] & 15 if len(f) > 14 else 0
            if f[12:14] != b"\x08\0" or len(f) < 34:
                want = [("skip",)]
            elif ihl >= 5:
                ln = min(len(f) - 14, struct.unpack_from(">H", f, 16)[0])
                d = f[14 + ihl * 4 + 8:14 + ln] if ln >= ihl * 4 + 8 else b""
                if ln < ihl * 4 + 8 + 12:
                    want = [("skip",)]
                else:
                    want, msgs = [("dns", 0)], [d]
            return Case(PCAP, [pcap(pkts)] + msgs, (pkts, want), tag=t)
        pkts, want, msgs = [], [], []
        for _ in range(r.choice((0, 1, 2, 5, 20))):
            y = r.random()
            m = self.message(r)[:60000]
            f = frame(r, m)
            if y < .15:
                t.append("short frame")
                f = f[:r.randrange(14)]
                pkts.append(f)
                want.append(("skip",))
                continue
            if y < .25:
                f = f[:12] + r.choice((b"\x86\xdd", b"\x08\x06", b"\x81\0", b"\0\x08", b"\x08\x01")) + f[14:]
                pkts.append(f)
                want.append(("skip",))
                continue
            if f[14] & 15 > 5:
                t.append("options in IP")
            if y < .5:
                # Ethernet pads short frames
                t.append("padded frame")
                f += bytes(r.randrange(1, 30))
            pkts.append(f)
            if len(m) < 12:
                want.append(("skip",))
            else:
                want.append(("dns", len(msgs)))
                msgs.append(m)
        be = r.random() < .2
        return Case(PCAP, [pcap(pkts, order=">" if be else "<")] + msgs, (pkts, want), tag=t)

    def judge(self, case, rd):
        self._t = set()
        rc, out, err = rd.n(), rd.b(), rd.b()
        rc = rc - (1 << 64) if rc >> 63 else rc
        if case.op == VERSION:
            v, n = rd.b(), rd.n()
            if rc or b"version %s\n" % v not in out or b"version is %d\n" % n not in out or b"== %d)" % n not in out:
                return "version", "%r" % out
            return None
        if case.op == USAGE:
            if rc == 0 or out or not err:
                return "usage", "exit %d, %r %r" % (rc, out, err)
            return None
        if case.op == FILE:
            res = rd.n()
            text = rd.b() if res == 0 else None
            if len(case.args[0]) >= 4096:
                if rc == 0 or out:
                    return "dump-file", "a file too long for the buffer was printed"
                return None
            if text is None:
                self._t.add("refused")
                return ("dump-file", "exit %d for a message that cannot be parsed, %r" % (rc, out)) if rc == 0 or out else None
            self._t.add("printed")
            if rc or out != text + b"\n":
                return "dump-file", "exit %d, printed %r instead of %r" % (rc, out, text)
            return None
        if case.op == HEX:
            w = int.from_bytes(case.args[0], "little")
            h = case.ctx
            res = rd.n()
            text = rd.b() if res == 0 else b""
            ok = len(h) > 0 and len(h) % 2 == 0 and all(c in "0123456789abcdefABCDEF" for c in h)
            if ok and bytes.fromhex(h) != case.args[2]:
                return None
            if not ok or res:
                self._t.add("refused")
                if rc == 0 or not err or out not in (b"", b"hex_to_int() failed\n") or out and ok:
                    return TOOLS[w], "exit %d, %r %r for %s" % (rc, out, err, "a text that is not hex" if not ok else "what the library refuses")
                return None
            self._t.add("printed")
            o, e = (out, err) if w != 1 else (err, out)
            if rc or o != text or e:
                return TOOLS[w], "exit %d, printed %r %r instead of %r" % (rc, o, e, text)
            return None
        dump = rd.b()
        pkts, want = case.ctx
        if rc:
            return "dump-pcap", "exit %d: %r" % (rc, err)
        texts = []
        for _ in case.args[1:]:
            res = rd.n()
            texts.append(rd.b() if res == 0 else None)
        if None in want:
            return None
        exp, bad = b"", []
        for f, w in zip(pkts, want):
            if w[0] == "dns":
                if texts[w[1]] is None:
                    bad.append(f)
                    self._t |= {"refused", "dumped"}
                else:
                    exp += texts[w[1]]
                    self._t.add("printed")
        if out != exp:
            return "dump-pcap", "printed %r instead of %r: %s" % (out[:300], exp[:300], [p.hex() for p in pkts])
        got, i = [], 24
        while i + 16 <= len(dump):
            n, m = struct.unpack_from("<II" if dump[:4] == b"\xd4\xc3\xb2\xa1" else ">II", dump, i + 8)
            got.append(dump[i + 16:i + 16 + n])
            i += 16 + n
        if got != bad and len(dump) < 1 << 20:
            return "dump-pcap file", "%d packets in the file, expected %d: %s" % (len(got), len(bad), [p.hex() for p in pkts])
        if b"count=%d\n" not in err and False:
            return "count", err
        return None

    def tag(self, case, res):
        return set(case.tag) | self._t


CHECK = C47()
