"""Independent reference model of what libwdns does: DNS wire format, RRsets,
EDNS and presentation format.  Written from the RFCs and the documented
behaviour; shares nothing with the code under test."""
import base64, socket, struct

IN, CH, HS, NONE, ANY = 1, 3, 4, 254, 255
CLASSES = {1: "IN", 3: "CH", 4: "HS", 254: "NONE", 255: "ANY"}
OPCODES = {0: "QUERY", 1: "IQUERY", 2: "STATUS", 4: "NOTIFY", 5: "UPDATE"}
RCODES = {0: "NOERROR", 1: "FORMERR", 2: "SERVFAIL", 3: "NXDOMAIN", 4: "NOTIMP", 5: "REFUSED",
          6: "YXDOMAIN", 7: "YXRRSET", 8: "NXRRSET", 9: "NOTAUTH", 10: "NOTZONE", 16: "BADVERS"}
TYPES = {}
for _w in """A=1 NS=2 MD=3 MF=4 CNAME=5 SOA=6 MB=7 MG=8 MR=9 NULL=10 WKS=11 PTR=12 HINFO=13 MINFO=14
MX=15 TXT=16 RP=17 AFSDB=18 X25=19 ISDN=20 RT=21 NSAP=22 NSAP-PTR=23 SIG=24 KEY=25 PX=26 GPOS=27 AAAA=28
LOC=29 NXT=30 EID=31 NIMLOC=32 SRV=33 ATMA=34 NAPTR=35 KX=36 CERT=37 A6=38 DNAME=39 SINK=40 OPT=41 APL=42
DS=43 SSHFP=44 IPSECKEY=45 RRSIG=46 NSEC=47 DNSKEY=48 DHCID=49 NSEC3=50 NSEC3PARAM=51 TLSA=52 HIP=55
NINFO=56 RKEY=57 TALINK=58 CDS=59 CDNSKEY=60 OPENPGPKEY=61 CSYNC=62 SPF=99 UINFO=100 UID=101 GID=102
UNSPEC=103 NID=104 L32=105 L64=106 LP=107 EUI48=108 EUI64=109 TKEY=249 TSIG=250 IXFR=251 AXFR=252
MAILB=253 MAILA=254 ANY=255 URI=256 CAA=257 SVCB=64 HTTPS=65 TA=32768 DLV=32769""".split():
    _n, _v = _w.rsplit("=", 1)
    TYPES[int(_v)] = _n
TYPE_BY_NAME = {v: k for k, v in TYPES.items()}
OPT = 41

# type -> (class restriction or None, [fields])
#  N name (may be compressed)  1/2/4 integers  a IPv4  q IPv6  s string  S strings to the end
#  x hex to the end  b base64 to the end  t quoted text to the end  T rrtype  m type bitmap
#  L salt  H hash  6 A6 prefix  e EUI48  E EUI64  v svcparams  o EDNS options
_L = {
    "CNAME": (0, "N"), "HINFO": (0, "ss"), "MB": (0, "N"), "MD": (0, "N"), "MF": (0, "N"), "MG": (0, "N"),
    "MINFO": (0, "NN"), "MR": (0, "N"), "MX": (0, "2N"), "NS": (0, "N"), "NULL": (0, "x"), "PTR": (0, "N"),
    "SOA": (0, "NN44444"), "TXT": (0, "S"), "A": (IN, "a"), "WKS": (IN, "41x"), "AFSDB": (0, "2N"),
    "ISDN": (0, "ss"), "RP": (0, "NN"), "RT": (0, "2N"), "X25": (0, "s"), "NXT": (0, "Nx"),
    "SIG": (0, "2114442Nx"), "DNAME": (0, "N"), "A6": (IN, "6N"), "AAAA": (IN, "q"), "KX": (IN, "2N"),
    "PX": (IN, "2NN"), "NAPTR": (IN, "22sssN"), "SRV": (IN, "222N"), "DNSKEY": (0, "211b"),
    "RRSIG": (0, "T114442Nb"), "NSEC": (0, "Nm"), "DS": (0, "211x"), "NSEC3": (0, "112LHm"),
    "NSEC3PARAM": (0, "112L"), "SPF": (0, "S"), "TLSA": (0, "111x"), "CDNSKEY": (0, "211b"),
    "CDS": (0, "211x"), "OPENPGPKEY": (0, "b"), "CSYNC": (0, "42m"), "EUI48": (0, "e"), "EUI64": (0, "E"),
    "URI": (0, "22t"), "SVCB": (IN, "2Nv"), "HTTPS": (IN, "2Nv"), "CAA": (IN, "1st"), "OPT": (0, "o"),
}
LAYOUT = {TYPE_BY_NAME[k]: v for k, v in _L.items()}

# RFC 4034 section 6.2 as updated by RFC 6840 section 5.1
DOWNCASE = {TYPE_BY_NAME[n] for n in
            "NS MD MF CNAME SOA MB MG MR PTR MINFO MX RP AFSDB RT SIG PX NXT NAPTR KX SRV DNAME A6".split()}


class Bad(Exception):
    pass


def layout(rrtype, rrclass):
    """Fields, or None when the rdata is opaque."""
    if rrtype not in LAYOUT:
        return None
    c, f = LAYOUT[rrtype]
    if c and c != rrclass:
        return None
    return f


def class_mismatch(rrtype, rrclass):
    return rrtype in LAYOUT and LAYOUT[rrtype][0] not in (0, rrclass)


# ------------------------------------------------------------------ names
def unpack(pkt, off, compress=True):
    """Wire name at off, decompressed.  Raises Bad."""
    out = bytearray()
    n = len(pkt)
    if off < 0 or off >= n:
        raise Bad("start")
    while True:
        if off >= n:
            raise Bad("ran off")
        c = pkt[off]
        if c == 0:
            out.append(0)
            return bytes(out)
        if c >= 192:
            if not compress:
                raise Bad("pointer")
            if off + 1 >= n:
                raise Bad("half a pointer")
            t = ((c & 63) << 8) | pkt[off + 1]
            if t >= off:
                raise Bad("pointer not backwards")
            off = t
        elif c <= 63:
            if off + 1 + c > n:
                raise Bad("label off")
            if len(out) + 1 + c > 254:
                raise Bad("too long")
            out += pkt[off:off + 1 + c]
            off += 1 + c
        else:
            raise Bad("label type")


def skip(pkt, off):
    """Octets the name at off occupies in place; Bad if it runs off."""
    o = off
    while True:
        if o >= len(pkt):
            raise Bad("off")
        c = pkt[o]
        if c == 0:
            return o + 1 - off
        if c >= 192:
            if o + 2 > len(pkt):
                raise Bad("off")
            return o + 2 - off
        if c > 63:
            raise Bad("type")
        o += c + 1


def labels(name):
    r, i = [], 0
    while name[i]:
        r.append(name[i + 1:i + 1 + name[i]])
        i += 1 + name[i]
    return r


def mkname(lab):
    return b"".join(bytes([len(x)]) + x for x in lab) + b"\0"


def valid_name(b):
    """b is exactly one uncompressed name."""
    try:
        return len(b) <= 255 and unpack(b, 0, False) == b
    except Bad:
        return False


_LOW = bytes(range(65)) + bytes(range(97, 123)) + bytes(range(91, 256))


def lower(b):
    return b.translate(_LOW)


_NESC = []
for _c in range(256):
    if _c in (46, 92):
        _NESC.append("\\" + chr(_c))
    elif 33 <= _c <= 126:
        _NESC.append(chr(_c))
    else:
        _NESC.append("\\%03d" % _c)
_SESC = []
for _c in range(256):
    if _c in (34, 92):
        _SESC.append("\\" + chr(_c))
    elif 32 <= _c <= 126:
        _SESC.append(chr(_c))
    else:
        _SESC.append("\\%03d" % _c)


def name_text(name):
    lab = labels(name)
    if not lab:
        return "."
    return "".join("".join(_NESC[c] for c in x) + "." for x in lab)


# -------------------------------------------------------------- wire rdata
def svc_ok(key, v):
    if key == 0:
        return len(v) % 2 == 0
    if key == 1:
        if not v:
            return False
        i = 0
        while i < len(v):
            i += 1 + v[i]
        return i == len(v)
    if key == 2:
        return not v
    if key == 3:
        return len(v) == 2
    if key == 4:
        return len(v) % 4 == 0
    if key == 6:
        return len(v) % 16 == 0
    return key != 65535


def split(rrtype, rrclass, rd, name_at=None):
    """Split rdata into its fields [(kind, bytes)].  name_at(off) -> (octets
    in place, uncompressed name); default: plain names only.  Raises Bad when a
    field does not fit or octets remain.  Rdata that ends between two fields is
    accepted, as the library does."""
    f = layout(rrtype, rrclass)
    if f is None:
        return [("?", rd)]
    out, i, n = [], 0, len(rd)
    try:
        return _split(f, rd, name_at, out)
    except Bad as e:
        e.fields = out           # the complete fields before the bad one
        j = f.index("S") if "S" in f else len(f)
        e.kind = "" if str(e) == "left over" else "S" if len(out) >= j else f[len(out)]
        raise


def _split(f, rd, name_at, out):
    i, n = 0, len(rd)

    def need(k):
        if n - i < k:
            raise Bad("short")

    for k in f:
        if i == n:
            break
        if k == "N":
            if name_at is None:
                nm = unpack(rd, i, False)
                ln = len(nm)
            else:
                ln, nm = name_at(i)
            need(ln)
            out.append((k, nm))
            i += ln
        elif k in "xbto":
            out.append((k, rd[i:]))
            i = n
        elif k in "124aqeE":
            ln = {"1": 1, "2": 2, "4": 4, "a": 4, "q": 16, "e": 6, "E": 8}[k]
            need(ln)
            out.append((k, rd[i:i + ln]))
            i += ln
        elif k == "T":
            need(2)
            out.append((k, rd[i:i + 2]))
            i += 2
        elif k in "sLH":
            ln = rd[i] + 1
            need(ln)
            out.append((k, rd[i:i + ln]))
            i += ln
        elif k == "S":
            while i < n:
                ln = rd[i] + 1
                need(ln)
                out.append(("s", rd[i:i + ln]))
                i += ln
        elif k == "6":
            p = rd[i]
            if p > 128:
                raise Bad("prefix")
            ln = 1 + (128 - p + 7) // 8
            need(ln)
            out.append((k, rd[i:i + ln]))
            i += ln
        elif k == "m":
            st = i
            while n - i >= 2:
                ln = rd[i + 1]
                if not 1 <= ln <= 32:
                    raise Bad("bitmap")
                need(2 + ln)
                i += 2 + ln
            out.append((k, rd[st:i]))
        elif k == "v":
            st = i
            while i < n:
                need(4)
                key, ln = struct.unpack_from(">HH", rd, i)
                need(4 + ln)
                if not svc_ok(key, rd[i + 4:i + 4 + ln]):
                    raise Bad("svcparam")
                i += 4 + ln
            out.append((k, rd[st:i]))
    if i != n:
        raise Bad("left over")
    return out


def wire_rdata(pkt, off, rdlen, rrtype, rrclass):
    """rdata of a record in a message, names decompressed."""
    def name_at(i):
        nm = unpack(pkt, off + i)
        return skip(pkt, off + i), nm
    f = split(rrtype, rrclass, pkt[off:off + rdlen], name_at)
    rd = b"".join(x for _, x in f)
    if len(rd) > 65535:
        raise Bad("expands beyond 65535 octets")
    return rd


class Msg:
    pass


def parse_message(pkt):
    """Raises Bad; otherwise a Msg."""
    if len(pkt) < 12:
        raise Bad("header")
    m = Msg()
    m.id, m.flags, *cnt = struct.unpack(">6H", pkt[:12])
    m.rcode = m.flags & 15
    m.edns = None
    m.rrs = [[], [], [], []]      # (ttl, type, class, name, rdata|None)
    m.rrsets = [[], [], [], []]   # [ttl, type, class, name, [rdata]]
    off = 12
    for sec in range(4):
        idx = {}
        for _ in range(cnt[sec]):
            if off == len(pkt):
                return m
            name = unpack(pkt, off)
            off += skip(pkt, off)
            if sec == 0:
                if off + 4 > len(pkt):
                    raise Bad("question")
                t, c = struct.unpack_from(">HH", pkt, off)
                off += 4
                m.rrs[0].append((0, t, c, name, None))
                m.rrsets[0].append([0, t, c, name, []])
                continue
            if off + 10 > len(pkt):
                raise Bad("rr header")
            t, c, ttl, rdlen = struct.unpack_from(">HHIH", pkt, off)
            off += 10
            if off + rdlen > len(pkt):
                raise Bad("rdlen")
            rd = wire_rdata(pkt, off, rdlen, t, c)
            off += rdlen
            if t == OPT and m.edns is None:
                m.edns = ((ttl >> 16) & 255, ttl & 0xffff, c, rd)
                m.rcode |= (ttl >> 24) << 4
                continue
            m.rrs[sec].append((ttl, t, c, name, rd))
            key = (lower(name), t, c)
            if key in idx:
                s = m.rrsets[sec][idx[key]]
                s[4].append(rd)
                s[0] = min(s[0], ttl)
            else:
                idx[key] = len(m.rrsets[sec])
                m.rrsets[sec].append([ttl, t, c, name, [rd]])
    return m


# ------------------------------------------------------- presentation format
def qstr(b):
    return '"' + "".join(_SESC[c] for c in b) + '"'


def hexs(b):
    return b.hex()


_B32 = "0123456789ABCDEFGHIJKLMNOPQRSTUV"


def b32(b):
    bits = "".join("{:08b}".format(c) for c in b)
    bits += "0" * (-len(bits) % 5)
    return "".join(_B32[int(bits[i:i + 5], 2)] for i in range(0, len(bits), 5))


def type_text(t):
    return TYPES.get(t) or "TYPE%d" % t


def class_text(c):
    return CLASSES.get(c) or "CLASS%d" % c


def bitmap_types(b):
    r, i = [], 0
    while i + 2 <= len(b):
        w, ln = b[i], b[i + 1]
        for k in range(ln):
            for j in range(8):
                if b[i + 2 + k] & (0x80 >> j):
                    r.append(w * 256 + k * 8 + j)
        i += 2 + ln
    return r


def mkbitmap(types):
    out = b""
    for w in sorted({t >> 8 for t in types}):
        m = bytearray(32)
        for t in types:
            if t >> 8 == w:
                m[(t & 255) >> 3] |= 0x80 >> (t & 7)
        while m and m[-1] == 0:
            m.pop()
        out += bytes([w, len(m)]) + bytes(m)
    return out


SVCKEYS = {0: "mandatory", 1: "alpn", 2: "no-default-alpn", 3: "port", 4: "ipv4hint", 5: "ech", 6: "ipv6hint"}


def svckey(k):
    return SVCKEYS.get(k) or "key%d" % k


def alpn_text(v):
    ids, i = [], 0
    while i < len(v):
        ids.append(v[i + 1:i + 1 + v[i]])
        i += 1 + v[i]
    o = []
    for x in ids:
        s = ""
        for c in x:
            if c == 34:
                s += '\\"'
            elif c == 92:
                s += "\\\\\\\\"
            elif c == 44:
                s += "\\\\,"
            else:
                s += _SESC[c]
        o.append(s)
    return '"' + ",".join(o) + '"'


def svc_text(b):
    o, i = [], 0
    while i < len(b):
        k, ln = struct.unpack_from(">HH", b, i)
        v = b[i + 4:i + 4 + ln]
        i += 4 + ln
        if not v and k in (0, 4, 5, 6) or k == 0 and any(v[j:j + 2] == b"\xff\xff" for j in range(0, ln, 2)):
            raise Bad("parameter without a valid value")    # no presentation form
        if k == 0:
            o.append("mandatory=" + ",".join(svckey(struct.unpack_from(">H", v, j)[0]) for j in range(0, ln, 2)))
        elif k == 1:
            o.append("alpn=" + alpn_text(v))
        elif k == 2:
            o.append("no-default-alpn")
        elif k == 3:
            o.append("port=%d" % struct.unpack(">H", v))
        elif k == 4:
            o.append("ipv4hint=" + ",".join(socket.inet_ntop(socket.AF_INET, v[j:j + 4]) for j in range(0, ln, 4)))
        elif k == 5:
            o.append("ech=" + base64.b64encode(v).decode())
        elif k == 6:
            o.append("ipv6hint=" + ",".join(ip6(v[j:j + 16]) for j in range(0, ln, 16)))
        else:
            o.append(svckey(k) + "=" + qstr(v))
    return o


def ip6(b):
    return socket.inet_ntop(socket.AF_INET6, b)


EDE = ["Other Error", "Unsupported DNSKEY Algorithm", "Unsupported DS Digest Type", "Stale Answer",
       "Forged Answer", "DNSSEC Indeterminate", "DNSSEC Bogus", "Signature Expired",
       "Signature Not Yet Valid", "DNSKEY Missing", "RRSIGs Missing", "No Zone Key Bit Set",
       "NSEC Missing", "Cached Error", "Not Ready", "Blocked", "Censored", "Filtered", "Prohibited",
       "Stale NXDomain Answer", "Not Authoritative", "Not Supported", "No Reachable Authority",
       "Network Error", "Invalid Data"]


def printable(b):
    return "".join(chr(c) if 32 <= c <= 126 else "." for c in b)


def opt_lines(b):
    """One line per EDNS option.  Raises Bad(lines so far) on malformed data."""
    lines, i = [], 0
    while i < len(b):
        if i + 2 > len(b):
            raise Bad("opt")
        code = struct.unpack_from(">H", b, i)[0]
        if i + 4 > len(b):
            raise Bad("opt")
        ln = struct.unpack_from(">H", b, i + 2)[0]
        v = b[i + 4:i + 4 + ln]
        if len(v) < ln:
            raise Bad("opt")
        i += 4 + ln
        if code == 8:
            if ln < 4:
                raise Bad("ecs")
            fam, sp, sc = struct.unpack_from(">HBB", v)
            a = v[4:]
            if fam == 1 and len(a) <= 4:
                t = socket.inet_ntop(socket.AF_INET, a.ljust(4, b"\0"))
            elif fam == 2 and len(a) <= 16:
                t = ip6(a.ljust(16, b"\0"))
            else:
                raise Bad("ecs family")
            lines.append("CLIENT-SUBNET: %s/%d/%d" % (t, sp, sc))
        elif code == 15:
            if ln < 2:
                raise Bad("ede")
            ic = struct.unpack_from(">H", v)[0]
            lines.append("EDE: %d%s: (%s)" % (ic, " (%s)" % EDE[ic] if ic < len(EDE) else "", printable(v[2:])))
        else:
            lines.append('OPT=%d: %s("%s")' % (code, "".join("%02x " % c for c in v), printable(v)))
    return lines


def field_tokens(k, b):
    """Presentation tokens of one field."""
    if k == "N":
        return [name_text(b)]
    if k in "124":
        return [str(int.from_bytes(b, "big"))]
    if k == "a":
        return [".".join(str(c) for c in b)]
    if k == "q":
        return [ip6(b)]
    if k == "s":
        return [qstr(b[1:])]
    if k == "t":
        return [qstr(b)]
    if k == "x":
        return [b.hex().upper()]
    if k == "b":
        return [base64.b64encode(b).decode()]
    if k == "T":
        return [type_text(int.from_bytes(b, "big"))]
    if k == "m":
        return [type_text(t) for t in bitmap_types(b)]
    if k == "L":
        return [b[1:].hex() or "-"]
    if k == "H":
        return [b32(b[1:]) if len(b) > 1 else "0"]
    if k == "6":
        r = [str(b[0])]
        if len(b) > 1:
            r.append(ip6(b[1:].rjust(16, b"\0")))
        return r
    if k in "eE":
        return ["-".join("%02x" % c for c in b)]
    if k == "v":
        return svc_text(b)
    raise KeyError(k)


def rdata_text(rrtype, rrclass, rd):
    """Text of well-formed rdata.  Raises Bad for malformed."""
    if rrtype not in LAYOUT:
        return "\\# %d " % len(rd) + "".join("%02x " % c for c in rd)
    if class_mismatch(rrtype, rrclass):
        return ""
    f = split(rrtype, rrclass, rd)
    if rrtype == OPT:
        return "\n".join(opt_lines(rd))
    return " ".join(t for k, b in f for t in field_tokens(k, b))


def rr_text(sec, ttl, t, c, name, rd):
    s = (";" if sec == 0 else "") + name_text(name)
    if sec != 0:
        s += " %d" % ttl
    s += " %s %s" % (class_text(c), type_text(t))
    if sec != 0:
        s += " " + rdata_text(t, c, rd)
    return s + "\n"


def message_text(m):
    f = m.flags
    op = (f >> 11) & 15
    s = ";; ->>HEADER<<- opcode: %s, rcode: %s, id: %d\n" % (
        OPCODES.get(op, str(op)), RCODES.get(m.rcode, str(m.rcode)), m.id)
    s += ";; flags:%s; QUERY: %d, ANSWER: %d, AUTHORITY: %d, ADDITIONAL: %d\n" % (
        "".join(" " + n for n, b in (("qr", 15), ("aa", 10), ("tc", 9), ("rd", 8), ("ra", 7), ("ad", 5), ("cd", 4))
                if f >> b & 1), *[len(x) for x in m.rrs])
    if m.edns is not None:
        v, fl, sz, o = m.edns
        s += "\n;; OPT PSEUDOSECTION:\n; EDNS: version: %d, flags:%s; udp: %d" % (v, " do" if fl & 0x8000 else "", sz)
        for ln in opt_lines(o):
            s += "\n; " + ln
    for i, n in enumerate(("QUESTION", "ANSWER", "AUTHORITY", "ADDITIONAL")):
        s += "\n;; %s SECTION:\n" % n
        for rr in m.rrs[i]:
            s += rr_text(i, *rr)
    return s


def downcase_rdata(rrtype, rrclass, rd):
    """Canonical-case rdata (RFC 4034 6.2)."""
    if rrtype not in DOWNCASE or layout(rrtype, rrclass) is None:
        return rd
    return b"".join(lower(b) if k == "N" else b for k, b in split(rrtype, rrclass, rd))


def text_name(s):
    """Wire name (case kept) that a text denotes.  s: bytes.  Raises Bad."""
    if s in (b"", b"."):
        return b"\0"
    lab, cur, i = [], bytearray(), 0
    while i < len(s):
        c = s[i]
        if c == 92:
            if i + 1 >= len(s):
                raise Bad("ends in a backslash")
            if s[i + 1] in b"0123456789":
                d = s[i + 1:i + 4]
                if len(d) < 3 or not d.isdigit() or int(d) > 255:
                    raise Bad("escape")
                cur.append(int(d))
                i += 4
            else:
                cur.append(s[i + 1])
                i += 2
        elif c == 46:
            if not cur:
                raise Bad("empty label")
            lab.append(bytes(cur))
            cur = bytearray()
            i += 1
        else:
            cur.append(c)
            i += 1
    if cur:
        lab.append(bytes(cur))
    if any(len(x) > 63 for x in lab) or sum(len(x) + 1 for x in lab) + 1 > 255:
        raise Bad("too long")
    return mkname(lab)


def serialize(ttl, t, c, name, rds):
    s = bytes([len(name)]) + name + struct.pack("=HHIH", t, c, ttl, len(rds))
    for r in rds:
        s += struct.pack("=H", len(r)) + r
    return s


def is_subdomain(a, b):
    la, lb = labels(a), labels(b)
    return len(la) > len(lb) and (not lb or la[-len(lb):] == lb)


def reverse(name):
    return mkname(labels(name)[::-1])
