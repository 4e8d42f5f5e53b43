import os, random, struct, sys
from vf.runner import Case, Check, Reader, num, NULL, Inconclusive, run_batch
from vf import dns as D, gen as G
from vf.dns import Bad

(PARSE, UNPACK, SKIP, COPYU, LENU, COUNT, LCHOP, REV, ISSUB, DOWNNAME, DOWNRDATA, D2S, RD2S, S2RD, S2N, DESER,
 SER, SORT, CMP, _RRSTR, RRSETSTR, _ARRSTR, TABLES, STRTAB, FILELOAD, PRINT, DOWNRRSET, PIPE, RTRIP, TRUNC,
 VERSION, NAMERT) = range(1, 33)

TEXTS, WALK, STREAM, FRESH = 1, 2, 4, 8


class Parsed:
    """What the harness recorded of a message."""

    def __init__(self, rd):
        self.res = rd.n()
        if self.res:
            self.empty = rd.n()
            return
        self.id, self.flags, self.rcode = rd.n(), rd.n(), rd.n()
        self.edns = None
        if rd.n():
            v, f, s = rd.n(), rd.n(), rd.n()
            self.edns = (v, f, s, rd.b())
        self.rrs, self.rrsets = [], []
        for _ in range(4):
            l = []
            for _ in range(rd.n()):
                ttl, t, c = rd.n(), rd.n(), rd.n()
                nm, d = rd.b(), rd.b()
                l.append((ttl, t, c, nm, d))
            self.rrs.append(l)
            self.rrsets.append([read_rrset(rd) for _ in range(rd.n())])

    def texts(self, rd):
        self.text = rd.s()
        self.sec_text, self.rrset_text, self.rr_text = [], [], []
        for s in range(4):
            self.sec_text.append(rd.s())
            self.rrset_text.append([rd.s() for _ in self.rrsets[s]])
            self.rr_text.append([rd.s() for _ in self.rrs[s]])

    def streams(self, rd):
        self.ptext = rd.s()
        self.psec, self.prrset, self.prr = [], [], []
        for s in range(4):
            self.psec.append(rd.s())
            self.prrset.append([rd.s() for _ in self.rrsets[s]])
            self.prr.append([rd.s() for _ in self.rrs[s]])


def read_rrset(rd):
    ttl, t, c, nm, n = rd.n(), rd.n(), rd.n(), rd.b(), rd.n()
    return [ttl, t, c, nm, [rd.b() for _ in range(n)]]


def rrset_args(nm, t, c, ttl, rds):
    return [nm, num(t), num(c), num(ttl)] + list(rds)


def model(pkt):
    try:
        return D.parse_message(pkt)
    except Bad:
        return None


def hostile_packet(r):
    """(packet, flavour)"""
    x = r.random()
    if x < .25:
        p, _ = G.message(r)
        return p, "well-formed"
    if x < .68:
        p, m = G.message(r, types=r.choice((None, None, (33, 46, 47, 50, 64, 65, 35, 38, 6, 14, 24, 62, 11))))
        return G.mutate(r, p, m), "mutated"
    if x < .74:
        return struct.pack(">6H", r.randrange(65536), r.randrange(65536), *[r.choice((0, 1, 2, 65535)) for _ in range(4)]) + \
            G.pointer_soup(r), "pointer-soup"
    if x < .78:
        c, prev = G.chain(r)
        h = struct.pack(">6H", 1, 0x8180, 1, 0, 0, 0)
        # the chain sits at offset 12+5; pointers are relative to the packet
        b = bytearray(h + b"\0\0\1\0\1")
        c = bytearray(c)
        return bytes(b + c), "chain"
    if x < .81:
        # nothing but records of minimal size: many of them
        n = r.choice((5, 50, 400))
        t = r.choice((1, 16, 46, 47, 65, 41, 250, 50))
        return struct.pack(">6H", 7, 0, 0, n, 0, 0) + b"".join(b"\0" + struct.pack(">HHIH", t, 1, i, 0) for i in range(n)), "many"
    if x < .97:
        # one record whose rdata is arbitrary
        t = G.any_type(r)
        c = 1 if r.random() < .8 else G.any_class(r)
        rd = G.rbytes(r, r.randrange(40)) if r.random() < .5 else G.mutate_rdata(r, G.rdata(r, t))[:60000]
        if r.random() < .25:
            # a record of several fields that ends, and with it the packet, a little too early
            t, c = r.choice((64, 65, 64, 65, 47, 50, 38, 41, 16, 35, 24, 46, 6, 33, 62)), 1
            rd = G.rdata(r, t)
            rd = rd[:max(0, len(rd) - r.randrange(1, 7))]
        ln = len(rd) if r.random() < .8 else max(0, min(65535, len(rd) + r.choice((-1, 1, -2, 2, 5))))
        return struct.pack(">6H", 7, 0, 0, 1, 0, 0) + G.name(r) + struct.pack(">HHIH", t, c, G.u32(r), ln) + rd, "one-record"
    return G.rbytes(r, r.randrange(60)), "noise"


def thousands(r):
    """As many records, or questions, as fit in a packet, or nearly."""
    cnt = [0, 0, 0, 0]
    out = b""
    room = 65535 - 12
    for sec in r.choice(((1,), (2,), (3,), (0,), (0, 1), (1, 2, 3), (1, 3))):
        nm = r.choice((b"\0", b"\0", b"\1a\0"))
        size = len(nm) + (4 if sec == 0 else 10)
        k = min(room // size, r.choice((1000, 2047, 2048, 4095, 4096, 4097, 5957, 8192, 13104)))
        t = r.choice((1, 16, 65280, 2)) if sec == 0 else r.choice((65280, 65280, 10, 250))
        m = r.choice((1, 1, 1, 40, 260, 1030, 2100, 4100))      # RRsets, each met again after all the others
        for i in range(k):
            out += nm + struct.pack(">HH", t, 1 + i % m) + (b"" if sec == 0 else struct.pack(">IH", i, 0))
        cnt[sec] = k
        room -= k * size
    return struct.pack(">6H", 1, 0x8180, *cnt) + out


def text_for(r, t, c=1):
    """Text of a well-formed rdata of type t (the model's rendering)."""
    for _ in range(20):
        try:
            return D.rdata_text(t, c, G.rdata(r, t)).encode("latin1")
        except Bad:
            continue
    return b""
