from .common import *
from .c02 import any_rdata


def edns_packet(r):
    p = G.Packet(r, .7)
    nm = G.name(r, 60)
    tag = []
    if r.random() < .5:
        p.question(nm, r.choice((1, 41)) if r.random() < .4 else 1, r.choice((1, 255, 4096)))
    nopt = r.choice((0, 1, 1, 1, 1, 1, 2, 3))
    where = [r.choice((1, 2, 3, 3, 3, 3)) for _ in range(nopt)]
    for sec in (1, 2, 3):
        seq = ["opt"] * where.count(sec) + ["rr"] * r.choice((0, 0, 1, 2))
        r.shuffle(seq)
        for s in seq:
            if s == "rr":
                t = r.choice((1, 16, 2, 15, 40, 42, 250, 297, 10))
                p.rr(sec, nm, t, r.choice((1, 1, 3, 4096)), G.u32(r), G.rr_fields(r, t, 1) if t != 1 else [("a", b"\1\2\3\4")])
                continue
            x = r.random()
            o = G.optrdata(r) if x < .65 else G.near_opt(r) if x < .9 else any_rdata(r, 41)[0][:300]
            ttl = r.choice((0, 1, 2, 7, 15, 16, 17, 127, 128, 240, 255, r.randrange(256))) << 24 | \
                r.choice((0, 0, 1, 2, 255, r.randrange(256))) << 16 | r.choice((0, 0x8000, 0x7fff, 0xffff, 1, r.randrange(65536)))
            p.rr(sec, b"\0" if r.random() < .85 else nm, 41, r.choice((0, 1, 512, 1232, 4096, 65535, G.u16(r))), ttl, [("o", o)])
    flags = (r.randrange(65536) & ~15) | r.choice((0, 0, 1, 3, 5, 6, 9, 10, 11, 15))
    return p.done(G.u16(r), flags), "opts %d" % nopt


class C(Check):
    prop = "C10"
    batch, quick, thorough = 900, 48, 2200
    fuzz = 8
    technique = "online comparison of EDNS data with a reference decoder"
    rule = ("messages with none, one or several OPT records in any section, all extended rcodes, versions, flags and sizes, "
            "options of every kind well-formed and malformed; EDNS data, rcode, sections and the rendered option text are "
            "compared with an independent decoder; non-trivial: a message with an OPT record that is accepted")
    min_tags = ("opts 0", "opts 1", "opts 2", "extended rcode", "option 8", "option 15", "option other", "malformed options")
    assumptions = ["EDE purposes up to code 24 are named, as the library documents (RFC 8914)"]

    def cases(self, r, n, bi):
        out = []
        for i in range(n):
            p, fl = edns_packet(r)
            out.append(Case(PARSE, [p, num(TEXTS)], tag=fl))
        return out

    def judge(self, case, rd):
        hx = case.args[0].hex()
        m = model(case.args[0])
        g = Parsed(rd)
        if m is None or g.res:
            if (m is None) != bool(g.res):
                return "accepted" if m is None else "refused", "result %d: %s" % (g.res, hx)
            return None
        g.texts(rd)
        if (m.edns is None) != (g.edns is None):
            return "presence", "EDNS %s: %s" % ("reported without OPT" if m.edns is None else "missing", hx)
        if m.rcode != g.rcode:
            return "rcode", "rcode %d, expected %d: %s" % (g.rcode, m.rcode, hx)
        for s in (0, 1, 2, 3):
            w = [(x[0], x[1], x[2], x[3]) for x in m.rrs[s]]
            h = [x[:4] for x in g.rrs[s]]
            if w != h:
                return "sections", "section %d: %r, expected %r: %s" % (s, h, w, hx)
            if [x[1] for x in m.rrsets[s]] != [x[1] for x in g.rrsets[s]]:
                return "sections", "section %d: OPT in the RRsets: %s" % (s, hx)
        # everything the text says before the question section
        head = g.text.split("\n\n;; QUESTION SECTION:\n")[0] if m.edns is None else g.text.split("\n;; QUESTION SECTION:\n")[0]
        if m.edns is None:
            if "OPT PSEUDOSECTION" in g.text:
                return "text", "an OPT pseudosection without EDNS: " + hx
            return None
        for k, a, b in zip(("version", "flags", "size", "options"), m.edns, g.edns):
            # no options at all may be reported as no object
            if a != b and not (k == "options" and a == b"" and b == NULL):
                return k, "EDNS %s is %r, expected %r: %s" % (k, b, a, hx)
        v, f, sz, o = m.edns
        want = ";; OPT PSEUDOSECTION:\n; EDNS: version: %d, flags:%s; udp: %d" % (v, " do" if f & 0x8000 else "", sz)
        i = g.text.find(";; OPT PSEUDOSECTION:")
        if i < 0 or g.text.count(";; OPT PSEUDOSECTION:") != 1:
            return "text", "no EDNS block in the text: " + hx
        block = g.text[i:].split("\n;; QUESTION SECTION:\n")[0]
        ls = block.rstrip("\n").split("\n")
        if "\n".join(ls[:2]) != want:
            return "text head", "EDNS block is %r, expected %r: %s" % (ls[:2], want, hx)
        try:
            lines = D.opt_lines(o)
        except Bad:
            if "###" not in block:
                return "text malformed", "malformed options without an error marker: %r %s" % (ls[2:], hx)
            return None
        got = [x.rstrip(" ") for x in ls[2:]]
        exp = ["; " + x.rstrip(" ") for x in lines]
        if got != exp:
            return "text options", "options print as %r, expected %r: %s" % (got, exp, hx)
        return None

    def tag(self, case, res):
        t = [case.tag]
        m = model(case.args[0])
        if m is not None and m.edns is not None:
            if m.rcode > 15:
                t.append("extended rcode")
            o = m.edns[3]
            i = 0
            while i + 4 <= len(o):
                c, ln = struct.unpack_from(">HH", o, i)
                t.append("option %d" % c if c in (8, 15) else "option other")
                i += 4 + ln
            try:
                D.opt_lines(o)
            except Bad:
                t.append("malformed options")
        return set(t)

    def nontrivial(self, case, res):
        m = model(case.args[0])
        return m is not None and m.edns is not None


CHECK = C()
