/* Executes public libwdns operations on exact-size buffers and records every
 * observable result.  Uses only what wdns.h declares. */
#include <arpa/inet.h>
#include <wdns.h>
#include "proto.h"

enum {
	OP_PARSE = 1, OP_UNPACK, OP_SKIP, OP_COPYU, OP_LENU, OP_COUNT, OP_LCHOP,
	OP_REV, OP_ISSUB, OP_DOWNNAME, OP_DOWNRDATA, OP_D2S, OP_RD2S, OP_S2RD,
	OP_S2N, OP_DESER, OP_SER, OP_SORT, OP_CMP, OP_RRSTR, OP_RRSETSTR,
	OP_ARRSTR, OP_TABLES, OP_STRTAB, OP_FILELOAD, OP_PRINT, OP_DOWNRRSET,
	OP_PIPE, OP_RTRIP, OP_TRUNC, OP_VERSION, OP_NAMERT,
};

#define BEGIN() do { counting = true; } while (0)
#define END() do { counting = false; } while (0)

/* ---- argument objects built as the caller of the library would ---- */
static void mk_name(wdns_name_t *n, const arg_t *a)
{
	n->len = (uint8_t) a->len;
	n->data = dup_exact(a->p, a->len, false);
}

static wdns_rdata_t *mk_rdata(const arg_t *a)
{
	wdns_rdata_t *r = malloc(sizeof(*r) + a->len);
	r->len = (uint16_t) a->len;
	if (a->len)
		memcpy(r->data, a->p, a->len);
	return r;
}

/* rrset: name, type, class, ttl, rdata... starting at argument i */
static void mk_rrset(wdns_rrset_t *s, unsigned i)
{
	memset(s, 0, sizeof(*s));
	mk_name(&s->name, &args[i]);
	s->rrtype = (uint16_t) arg_num(i + 1);
	s->rrclass = (uint16_t) arg_num(i + 2);
	s->rrttl = (uint32_t) arg_num(i + 3);
	s->n_rdatas = (uint16_t) (n_args - i - 4);
	if (s->n_rdatas > 0)
		s->rdatas = malloc(sizeof(*s->rdatas) * s->n_rdatas);
	for (unsigned k = 0; k < s->n_rdatas; k++)
		s->rdatas[k] = mk_rdata(&args[i + 4 + k]);
}

static void free_rrset(wdns_rrset_t *s)
{
	for (unsigned k = 0; k < s->n_rdatas; k++)
		free(s->rdatas[k]);
	free(s->rdatas);
	free(s->name.data);
}

static void dump_rr(const wdns_rr_t *rr)
{
	out_num(rr->rrttl); out_num(rr->rrtype); out_num(rr->rrclass);
	out_bytes(rr->name.data, rr->name.len);
	if (rr->rdata == NULL)
		out_bytes("\xff<NULL>", 7);
	else
		out_bytes(rr->rdata->data, rr->rdata->len);
}

static void dump_rrset(const wdns_rrset_t *s)
{
	out_num(s->rrttl); out_num(s->rrtype); out_num(s->rrclass);
	out_bytes(s->name.data, s->name.len);
	out_num(s->n_rdatas);
	for (unsigned k = 0; k < s->n_rdatas; k++)
		out_bytes(s->rdatas[k]->data, s->rdatas[k]->len);
}

static void dump_message(const wdns_message_t *m)
{
	out_num(m->id); out_num(m->flags); out_num(m->rcode);
	out_num(m->edns.present);
	if (m->edns.present) {
		out_num(m->edns.version); out_num(m->edns.flags); out_num(m->edns.size);
		if (m->edns.options == NULL)
			out_bytes("\xff<NULL>", 7);
		else
			out_bytes(m->edns.options->data, m->edns.options->len);
	}
	for (unsigned s = 0; s < WDNS_MSG_SEC_MAX; s++) {
		out_num(m->sections[s].n_rrs);
		for (unsigned i = 0; i < m->sections[s].n_rrs; i++)
			dump_rr(&m->sections[s].rrs[i]);
		out_num(m->sections[s].n_rrsets);
		for (unsigned i = 0; i < m->sections[s].n_rrsets; i++)
			dump_rrset(&m->sections[s].rrsets[i]);
	}
}

/* A failed parse has to leave an empty message behind. */
static bool message_empty(const wdns_message_t *m)
{
	bool ok = !m->edns.present && m->edns.options == NULL;
	for (unsigned s = 0; s < WDNS_MSG_SEC_MAX; s++)
		ok = ok && m->sections[s].n_rrs == 0 && m->sections[s].n_rrsets == 0 &&
			m->sections[s].rrs == NULL && m->sections[s].rrsets == NULL;
	return ok;
}

static void take_str(char *s)
{
	END();
	out_str(s);
	BEGIN();
	free(s);
}

static void tail(const uint8_t *in, const arg_t *orig, bool modified_ok)
{
	END();
	out_num((uint64_t) (int64_t) live_blocks);
	if (in != NULL)
		out_num(modified_ok || orig->len == 0 || memcmp(in, orig->p, orig->len) == 0);
	else
		out_num(1);
}

/* Capture what a print function writes to a stream. */
static VF_TLS char *cap_buf; static VF_TLS size_t cap_len;
static FILE *cap_open(void) { cap_buf = NULL; cap_len = 0; return open_memstream(&cap_buf, &cap_len); }
static void cap_emit(FILE *f) { fclose(f); out_bytes(cap_buf, cap_len); free(cap_buf); }

/* streams which need no memory, the second one refuses all output: what is printed there is under the allocation monitor */
static FILE *null_stream(void)
{
	static __thread FILE *f[2];
	static __thread char buf[2][4096];
	static __thread unsigned k;
	k ^= 1;
	if (f[k] == NULL) {
		f[k] = fopen("/dev/null", k ? "r" : "w");
		setvbuf(f[k], buf[k], _IOFBF, sizeof buf[k]);
	}
	clearerr(f[k]);
	return f[k];
}

static void pipeline(wdns_message_t *m)
{
	/* every consumer of a parsed message */
	char *s;
	size_t total = 0;
	s = wdns_message_to_str(m); total += strlen(s); free(s);
	for (unsigned sec = 0; sec < WDNS_MSG_SEC_MAX; sec++) {
		wdns_rrset_array_t *a = &m->sections[sec];
		s = wdns_rrset_array_to_str(a, sec); total += strlen(s); free(s);
		for (unsigned i = 0; i < a->n_rrs; i++) {
			wdns_rr_t *rr = &a->rrs[i];
			s = wdns_rr_to_str(rr, sec); total += strlen(s); free(s);
			wdns_name_t chop, n = rr->name; size_t nl; bool sub;
			char dn[WDNS_PRESLEN_NAME];
			wdns_domain_to_str(n.data, n.len, dn);
			total += strlen(dn);
			if (wdns_count_labels(&n, &nl) == wdns_res_success) total += nl;
			while (n.len > 1 && wdns_left_chop(&n, &chop) == wdns_res_success) {
				if (wdns_is_subdomain(&rr->name, &chop, &sub) == wdns_res_success) total += sub;
				n = chop;
			}
			uint8_t *rev = malloc(rr->name.len ? rr->name.len : 1);
			if (rr->name.len && wdns_reverse_name(rr->name.data, rr->name.len, rev) == wdns_res_success)
				total += rev[0];
			free(rev);
		}
		for (unsigned i = 0; i < a->n_rrsets; i++) {
			wdns_rrset_t *rs = &a->rrsets[i], copy;
			s = wdns_rrset_to_str(rs, sec); total += strlen(s); free(s);
			size_t sz = 0, sz2 = 0;
			if (wdns_serialize_rrset(rs, NULL, &sz) == wdns_res_success) {
				uint8_t *b = malloc(sz);
				if (wdns_serialize_rrset(rs, b, &sz2) != wdns_res_success) abort();
				if (wdns_deserialize_rrset(&copy, b, sz2) == wdns_res_success) {
					if (wdns_sort_rrset(&copy) == wdns_res_success) total++;
					if (wdns_downcase_rrset(&copy) == wdns_res_success) total++;
					wdns_clear_rrset(&copy);
				}
				free(b);
			}
			for (unsigned k = 0; k < a->n_rrs && k < 8; k++)
				total += wdns_compare_rr_rrset(&a->rrs[k], rs);
			if (wdns_downcase_rrset(rs) == wdns_res_success) total++;
			if (wdns_sort_rrset(rs) == wdns_res_success) total++;
		}
	}
	END(); out_num(total); BEGIN();
}

static void op_parse(bool texts, bool pipe, bool print, bool fresh)
{
	wdns_message_t m;
	uint8_t *pkt = dup_exact(args[0].p, args[0].len, false);
	if (fresh) {		/* into memory as it came from the allocator */
		wdns_message_t *g = malloc(sizeof(m));
		memcpy(&m, g, sizeof(m));
		free(g);
	} else
		memset(&m, 0xA5, sizeof(m));
	BEGIN();
	wdns_res res = wdns_parse_message(&m, pkt, args[0].len);
	END();
	out_num(res);
	if (res == wdns_res_success) {
		dump_message(&m);
		if (fresh && !m.edns.present) {
			out_num(m.edns.version); out_num(m.edns.flags); out_num(m.edns.size);
		}
		BEGIN();
		if (texts) {
			take_str(wdns_message_to_str(&m));
			for (unsigned s = 0; s < WDNS_MSG_SEC_MAX; s++) {
				take_str(wdns_rrset_array_to_str(&m.sections[s], s));
				for (unsigned i = 0; i < m.sections[s].n_rrsets; i++)
					take_str(wdns_rrset_to_str(&m.sections[s].rrsets[i], s));
				for (unsigned i = 0; i < m.sections[s].n_rrs; i++)
					take_str(wdns_rr_to_str(&m.sections[s].rrs[i], s));
			}
		}
		if (print) {
			FILE *f;
			END();
			f = cap_open(); wdns_print_message(f, &m); cap_emit(f);
			for (unsigned s = 0; s < WDNS_MSG_SEC_MAX; s++) {
				f = cap_open(); wdns_print_rrset_array(f, &m.sections[s], s); cap_emit(f);
				for (unsigned i = 0; i < m.sections[s].n_rrsets; i++) {
					f = cap_open(); wdns_print_rrset(f, &m.sections[s].rrsets[i], s); cap_emit(f);
				}
				for (unsigned i = 0; i < m.sections[s].n_rrs; i++) {
					f = cap_open(); wdns_print_rr(f, &m.sections[s].rrs[i], s); cap_emit(f);
				}
			}
			f = null_stream();
			BEGIN();
			wdns_print_message(f, &m);
			for (unsigned s = 0; s < WDNS_MSG_SEC_MAX; s++) {
				wdns_print_rrset_array(f, &m.sections[s], s);
				for (unsigned i = 0; i < m.sections[s].n_rrsets; i++)
					wdns_print_rrset(f, &m.sections[s].rrsets[i], s);
				for (unsigned i = 0; i < m.sections[s].n_rrs; i++)
					wdns_print_rr(f, &m.sections[s].rrs[i], s);
			}
		}
		if (pipe)
			pipeline(&m);
		wdns_clear_message(&m);
		END();
		out_num(message_empty(&m));
		BEGIN();
		wdns_clear_message(&m);		/* clearing again is harmless */
	} else {
		out_num(message_empty(&m));
		BEGIN();
		wdns_clear_message(&m);		/* allowed after a failure, too */
	}
	tail(pkt, &args[0], false);
	free(pkt);
}

static void op_names(uint8_t op)
{
	uint8_t *b = dup_exact(args[0].p, args[0].len, false);
	size_t off = n_args > 1 ? arg_num(1) : 0;
	wdns_res res;
	BEGIN();
	switch (op) {
	case OP_UNPACK:
	case OP_COPYU: {
		uint8_t *dst = malloc(WDNS_MAXLEN_NAME);
		size_t sz = 0xdeadbeef;
		memset(dst, 0xA5, WDNS_MAXLEN_NAME);
		if (op == OP_UNPACK)
			res = wdns_unpack_name(b, b + args[0].len, b + off, dst, &sz);
		else
			res = wdns_copy_uname(b, b + args[0].len, b + off, dst, &sz);
		END();
		out_num(res);
		if (res == wdns_res_success) {
			out_num(sz);
			out_bytes(dst, sz <= WDNS_MAXLEN_NAME ? sz : WDNS_MAXLEN_NAME);
			/* the size is optional */
			uint8_t *dst2 = malloc(WDNS_MAXLEN_NAME);
			memset(dst2, 0x5A, WDNS_MAXLEN_NAME);
			if (op == OP_UNPACK)
				res = wdns_unpack_name(b, b + args[0].len, b + off, dst2, NULL);
			else
				res = wdns_copy_uname(b, b + args[0].len, b + off, dst2, NULL);
			out_num(res == wdns_res_success && sz <= WDNS_MAXLEN_NAME && memcmp(dst, dst2, sz) == 0);
			/* nothing behind the name is touched */
			bool clean = true;
			for (size_t i = sz; i < WDNS_MAXLEN_NAME; i++)
				clean = clean && dst[i] == 0xA5 && dst2[i] == 0x5A;
			out_num(clean);
			free(dst2);
		}
		BEGIN();
		free(dst);
		break;
	}
	case OP_SKIP: {
		const uint8_t *p = b + off;
		size_t n = wdns_skip_name(&p, b + args[0].len);
		END();
		out_num(n); out_num((uint64_t) (p - (b + off)));
		BEGIN();
		break;
	}
	case OP_LENU: {
		size_t sz = 0;
		res = wdns_len_uname(b, b + args[0].len, &sz);
		END();
		out_num(res);
		if (res == wdns_res_success) out_num(sz);
		BEGIN();
		break;
	}
	case OP_COUNT: {
		wdns_name_t n = { .len = (uint8_t) args[0].len, .data = b };
		size_t nl = 77;
		res = wdns_count_labels(&n, &nl);
		END();
		out_num(res);
		if (res == wdns_res_success) out_num(nl);
		BEGIN();
		break;
	}
	case OP_LCHOP: {
		wdns_name_t n = { .len = (uint8_t) args[0].len, .data = b }, c = { 0, NULL };
		res = wdns_left_chop(&n, &c);
		END();
		out_num(res);
		if (res == wdns_res_success) {
			out_num((uint64_t) (c.data - b)); out_num(c.len);
			out_num(n.len == args[0].len && n.data == b);
			/* on to the root, or to where it is refused */
			BEGIN();
			for (unsigned i = 0; i < 300 && res == wdns_res_success; i++) {
				n = c;
				res = wdns_left_chop(&n, &c);
			}
			END();
		}
		BEGIN();
		break;
	}
	case OP_REV: {
		uint8_t *r = malloc(args[0].len);
		res = wdns_reverse_name(b, args[0].len, r);
		END();
		out_num(res);
		if (res == wdns_res_success) out_bytes(r, args[0].len);
		BEGIN();
		free(r);
		break;
	}
	case OP_DOWNNAME: {
		wdns_name_t n = { .len = (uint8_t) args[0].len, .data = b };
		wdns_downcase_name(&n);
		END();
		out_bytes(b, args[0].len);
		out_num(n.len == args[0].len && n.data == b);
		BEGIN();
		break;
	}
	case OP_D2S: {
		char *dst = malloc(WDNS_PRESLEN_NAME);
		memset(dst, 0xA5, WDNS_PRESLEN_NAME);
		size_t n = wdns_domain_to_str(b, args[0].len, dst);
		END();
		out_num(n);
		out_str(dst);
		BEGIN();
		free(dst);
		break;
	}
	}
	tail(b, &args[0], op == OP_DOWNNAME);
	free(b);
}

static void op_issub(void)
{
	uint8_t *b0 = dup_exact(args[0].p, args[0].len, false);
	uint8_t *b1 = dup_exact(args[1].p, args[1].len, false);
	wdns_name_t n0 = { .len = (uint8_t) args[0].len, .data = b0 };
	wdns_name_t n1 = { .len = (uint8_t) args[1].len, .data = b1 };
	bool sub = true;
	BEGIN();
	wdns_res res = wdns_is_subdomain(&n0, &n1, &sub);
	END();
	out_num(res);
	out_num(sub);
	out_num(args[1].len == 0 || memcmp(b1, args[1].p, args[1].len) == 0);
	tail(b0, &args[0], false);
	free(b0);
	free(b1);
}

static void out_rd(wdns_res res, uint8_t *rd, size_t len)
{
	out_num(res);
	if (res == wdns_res_success)
		out_bytes(rd, len);
}

static void op_rdata(uint8_t op)
{
	wdns_res res;
	switch (op) {
	case OP_DOWNRDATA: {
		BEGIN();
		wdns_rdata_t *r = mk_rdata(&args[0]);
		res = wdns_downcase_rdata(r, (uint16_t) arg_num(1), (uint16_t) arg_num(2));
		END();
		out_num(res);
		out_num(r->len);
		out_bytes(r->data, args[0].len);
		BEGIN();
		free(r);
		tail(NULL, NULL, true);
		break;
	}
	case OP_RD2S: {
		uint8_t *b = dup_exact(args[0].p, args[0].len, false);
		BEGIN();
		take_str(wdns_rdata_to_str(b, (uint16_t) args[0].len, (uint16_t) arg_num(1), (uint16_t) arg_num(2)));
		tail(b, &args[0], false);
		free(b);
		break;
	}
	case OP_RTRIP: {
		/* wire -> text -> wire -> text */
		uint8_t *b = dup_exact(args[0].p, args[0].len, false), *rd = NULL;
		size_t rdlen = 0;
		uint16_t t = (uint16_t) arg_num(1), c = (uint16_t) arg_num(2);
		char *s;
		BEGIN();
		s = wdns_rdata_to_str(b, (uint16_t) args[0].len, t, c);
		END();
		out_str(s);
		BEGIN();
		res = wdns_str_to_rdata(s, t, c, &rd, &rdlen);
		free(s);
		END();
		out_rd(res, rd, rdlen);
		BEGIN();
		if (res == wdns_res_success) {
			uint8_t *x = dup_exact(rd, rdlen, false);
			take_str(wdns_rdata_to_str(x, (uint16_t) rdlen, t, c));
			free(x);
			free(rd);
		}
		tail(b, &args[0], false);
		free(b);
		break;
	}
	case OP_S2RD: {
		char *s = (char *) dup_exact(args[0].p, args[0].len, true);
		uint8_t *rd = NULL;
		size_t rdlen = 0;
		uint16_t t = (uint16_t) arg_num(1), c = (uint16_t) arg_num(2);
		BEGIN();
		res = wdns_str_to_rdata(s, t, c, &rd, &rdlen);
		END();
		out_rd(res, rd, rdlen);
		if (res == wdns_res_success) {
			/* render what came out, and read that back */
			BEGIN();
			uint8_t *x = dup_exact(rd, rdlen, false);
			char *s2 = wdns_rdata_to_str(x, (uint16_t) rdlen, t, c);
			free(x);
			free(rd);
			END();
			out_str(s2);
			BEGIN();
			rd = NULL; rdlen = 0;
			res = wdns_str_to_rdata(s2, t, c, &rd, &rdlen);
			free(s2);
			END();
			out_rd(res, rd, rdlen);
			BEGIN();
			if (res == wdns_res_success)
				free(rd);
			END();
		}
		tail((uint8_t *) s, &args[0], false);
		free(s);
		break;
	}
	case OP_S2N: {
		char *s = (char *) dup_exact(args[0].p, args[0].len, true);
		wdns_name_t n = { 0xAA, NULL };
		BEGIN();
		res = arg_num(1) ? wdns_str_to_name_case(s, &n) : wdns_str_to_name(s, &n);
		END();
		out_num(res);
		if (res == wdns_res_success) {
			uint8_t *x = dup_exact(n.data, n.len, false);
			out_bytes(n.data, n.len);
			char *d = malloc(WDNS_PRESLEN_NAME);
			out_num(wdns_domain_to_str(x, n.len, d));
			out_str(d);
			free(d);
			free(x);
			BEGIN();
			free(n.data);
			END();
		}
		tail((uint8_t *) s, &args[0], false);
		free(s);
		break;
	}
	}
}

static void op_rrset(uint8_t op)
{
	wdns_rrset_t s;
	wdns_res res;
	BEGIN();
	switch (op) {
	case OP_SER: {
		mk_rrset(&s, 0);
		size_t sz = 0, sz2 = 0;
		res = wdns_serialize_rrset(&s, NULL, &sz);
		END(); out_num(res); out_num(sz); BEGIN();
		uint8_t *b = malloc(sz);
		memset(b, 0xA5, sz);
		res = wdns_serialize_rrset(&s, b, &sz2);
		END(); out_num(res); out_num(sz2); out_bytes(b, sz); BEGIN();
		memset(b, 0x5A, sz);
		res = wdns_serialize_rrset(&s, b, NULL);
		END(); out_num(res); out_bytes(b, sz); BEGIN();
		/* the argument is not changed */
		END(); dump_rrset(&s); BEGIN();
		wdns_rrset_t r;
		memset(&r, 0xA5, sizeof(r));
		res = wdns_deserialize_rrset(&r, b, sz);
		END(); out_num(res); if (res == wdns_res_success) dump_rrset(&r); BEGIN();
		if (res == wdns_res_success)
			wdns_clear_rrset(&r);
		free(b);
		free_rrset(&s);
		break;
	}
	case OP_TRUNC: {
		/* every proper prefix of a serialized RRset has to be refused */
		mk_rrset(&s, 0);
		size_t sz = 0, bad = 0, first = 0;
		(void) wdns_serialize_rrset(&s, NULL, &sz);
		uint8_t *b = malloc(sz);
		(void) wdns_serialize_rrset(&s, b, NULL);
		for (size_t k = 0; k < sz; k++) {
			/* of a long one: both ends, around 65536, and a sample */
			size_t edge = s.n_rdatas > 1000 ? 16 : 300;
			if (sz > 20000 && k > edge && k + edge < sz && (k < 65536 - edge / 8 || k > 65536 + edge / 8) &&
			    k % (sz / (s.n_rdatas > 1000 ? 13 : 97)) != 0)
				continue;
			uint8_t *x = dup_exact(b, k, false);
			wdns_rrset_t r;
			memset(&r, 0xA5, sizeof(r));
			res = wdns_deserialize_rrset(&r, x, k);
			if (res == wdns_res_success) {
				if (bad++ == 0) first = k;
				wdns_clear_rrset(&r);
			} else if (r.n_rdatas != 0 || r.rdatas != NULL || r.name.data != NULL) {
				if (bad++ == 0) first = k;
			}
			free(x);
		}
		END(); out_num(bad); out_num(first); BEGIN();
		free(b);
		free_rrset(&s);
		break;
	}
	case OP_DESER: {
		END();
		uint8_t *b = dup_exact(args[0].p, args[0].len, false);
		BEGIN();
		memset(&s, 0xA5, sizeof(s));
		res = wdns_deserialize_rrset(&s, b, args[0].len);
		END();
		out_num(res);
		if (res == wdns_res_success) {
			dump_rrset(&s);
			BEGIN();
			size_t sz = 0;
			(void) wdns_serialize_rrset(&s, NULL, &sz);
			uint8_t *o = malloc(sz);
			(void) wdns_serialize_rrset(&s, o, &sz);
			END(); out_bytes(o, sz); BEGIN();
			free(o);
			wdns_clear_rrset(&s);
			wdns_clear_rrset(&s);
		} else {
			out_num(s.n_rdatas == 0 && s.rdatas == NULL && s.name.data == NULL);
			BEGIN();
		}
		END();
		out_num(args[0].len == 0 || memcmp(b, args[0].p, args[0].len) == 0);
		free(b);
		BEGIN();
		break;
	}
	case OP_SORT:
		mk_rrset(&s, 0);
		res = wdns_sort_rrset(&s);
		END(); out_num(res); dump_rrset(&s); BEGIN();
		free_rrset(&s);
		break;
	case OP_DOWNRRSET:
		mk_rrset(&s, 0);
		res = wdns_downcase_rrset(&s);
		END(); out_num(res); dump_rrset(&s); BEGIN();
		free_rrset(&s);
		break;
	case OP_CMP: {
		/* rr: name,type,class,ttl then rrset from 4 */
		wdns_rr_t rr;
		mk_name(&rr.name, &args[0]);
		rr.rrtype = (uint16_t) arg_num(1);
		rr.rrclass = (uint16_t) arg_num(2);
		rr.rrttl = (uint32_t) arg_num(3);
		rr.rdata = NULL;
		mk_rrset(&s, 4);
		bool r = wdns_compare_rr_rrset(&rr, &s);
		bool same = rr.name.len == args[0].len && s.name.len == args[4].len &&
			memcmp(rr.name.data, args[0].p, args[0].len) == 0 &&
			memcmp(s.name.data, args[4].p, args[4].len) == 0;
		END(); out_num(r); out_num(same); BEGIN();
		free(rr.name.data);
		free_rrset(&s);
		break;
	}
	case OP_RRSETSTR:
	case OP_PRINT: {
		/* sec, rrset */
		unsigned sec = (unsigned) arg_num(0);
		mk_rrset(&s, 1);
		take_str(wdns_rrset_to_str(&s, sec));
		if (s.n_rdatas > 0) {
			wdns_rr_t rr = { .rrttl = s.rrttl, .rrtype = s.rrtype, .rrclass = s.rrclass,
				.name = s.name, .rdata = s.rdatas[0] };
			take_str(wdns_rr_to_str(&rr, sec));
			wdns_rrset_array_t a = { .n_rrs = 1, .n_rrsets = 1, .rrs = &rr, .rrsets = &s };
			take_str(wdns_rrset_array_to_str(&a, sec));
			if (op == OP_PRINT) {
				END();
				FILE *f;
				f = cap_open(); wdns_print_rr(f, &rr, sec); cap_emit(f);
				f = cap_open(); wdns_print_rrset_array(f, &a, sec); cap_emit(f);
				f = null_stream();
				BEGIN();
				wdns_print_rr(f, &rr, sec);
				wdns_print_rrset_array(f, &a, sec);
			}
		}
		if (op == OP_PRINT) {
			END();
			FILE *f = cap_open(); wdns_print_rrset(f, &s, sec); cap_emit(f);
			f = null_stream();
			BEGIN();
			wdns_print_rrset(f, &s, sec);
		}
		free_rrset(&s);
		break;
	}
	}
	tail(NULL, NULL, true);
}

static void op_tables(void)
{
	unsigned v = (unsigned) arg_num(0), hi = (unsigned) arg_num(1);
	for (; v < hi; v++) {
		const char *s;
		out_str(wdns_rrtype_to_str((uint16_t) v));
		out_str(wdns_rrclass_to_str((uint16_t) v));
		out_str(wdns_rcode_to_str((uint16_t) v));
		out_str(wdns_opcode_to_str((uint16_t) v));
		uint16_t rc = 0;
		s = wdns_rrtype_to_str((uint16_t) v);
		out_num(s ? wdns_str_to_rrtype(s) : 0x10000);
		s = wdns_rrclass_to_str((uint16_t) v);
		out_num(s ? wdns_str_to_rrclass(s) : 0x10000);
		s = wdns_rcode_to_str((uint16_t) v);
		out_num(s ? (wdns_str_to_rcode(s, &rc) == wdns_res_success ? rc : 0x20000u) : 0x10000u);
		char g[32];
		snprintf(g, sizeof(g), "TYPE%u", v);
		out_num(wdns_str_to_rrtype(g));
		snprintf(g, sizeof(g), "CLASS%u", v);
		out_num(wdns_str_to_rrclass(g));
	}
	for (int r = 0; r < 24; r++)
		out_str(wdns_res_to_str((wdns_res) r));
	tail(NULL, NULL, true);
}

static void op_strtab(void)
{
	char *s = (char *) dup_exact(args[0].p, args[0].len, true);
	uint16_t rc = 0xA5A5;
	BEGIN();
	uint16_t ty = wdns_str_to_rrtype(s), cl = wdns_str_to_rrclass(s);
	wdns_res res = wdns_str_to_rcode(s, &rc);
	END();
	out_num(ty);
	out_num(cl);
	out_num(res);
	out_num(rc);
	tail((uint8_t *) s, &args[0], false);
	free(s);
}

static VF_TLS unsigned cb_n;
static VF_TLS void *cb_user;
static VF_TLS bool cb_user_ok;
static void cb_name(wdns_name_t *n, void *user)
{
	bool c = counting;
	counting = false;
	cb_n++;
	cb_user_ok = cb_user_ok && user == cb_user;
	out_bytes(n->data, n->len);
	counting = c;
	free(n->data);		/* the callback owns the name */
}

static void op_fileload(void)
{
	/* arg 0: path of scratch file; arg 1: content; no arg 1: file absent */
	char *path = (char *) dup_exact(args[0].p, args[0].len, true);
#ifdef VF_THREADS
	/* each thread has a file of its own */
	char mine[300];
	if (n_args > 1) {
		snprintf(mine, sizeof(mine), "%s.%d", path, vf_thread);
		free(path);
		path = (char *) dup_exact((uint8_t *) mine, strlen(mine), true);
	}
#endif
	if (n_args > 1) {
		int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || write(fd, args[1].p, args[1].len) != (ssize_t) args[1].len) {
			perror(path); _exit(96);
		}
		close(fd);
	}
	int nfd0 = dup(0);
	close(nfd0);
	cb_n = 0; cb_user = &cb_n; cb_user_ok = true;
	BEGIN();
	wdns_res res = wdns_file_load_names(path, cb_name, cb_user);
	END();
	int nfd1 = dup(0);
	close(nfd1);
	out_num(res); out_num(cb_n); out_num(cb_user_ok);
#ifdef VF_THREADS
	nfd1 = nfd0;			/* other threads open files, too */
#endif
	out_num(nfd0 == nfd1);		/* the file is closed again */
	if (n_args > 1)
		unlink(path);
	tail(NULL, NULL, true);
	free(path);
}

static void op_namert(void)
{
	/* wire name -> text -> wire, twice (case kept, downcased) */
	uint8_t *b = dup_exact(args[0].p, args[0].len, false);
	char *d = malloc(WDNS_PRESLEN_NAME);
	memset(d, 0xA5, WDNS_PRESLEN_NAME);
	BEGIN();
	size_t n = wdns_domain_to_str(b, args[0].len, d);
	END();
	out_num(n);
	out_str(d);
	size_t dl = strlen(d);
	char *t = (char *) dup_exact((uint8_t *) d, dl, true);
	for (int nodot = 0; nodot < 2; nodot++) {
		/* with and without the final dot */
		if (nodot) {
			if (dl < 2) break;
			free(t);
			t = (char *) dup_exact((uint8_t *) d, dl - 1, true);
		}
		for (int k = 0; k < 2; k++) {
			wdns_name_t nm = { 0, NULL };
			BEGIN();
			wdns_res res = k ? wdns_str_to_name(t, &nm) : wdns_str_to_name_case(t, &nm);
			END();
			out_num(res);
			if (res == wdns_res_success) {
				out_bytes(nm.data, nm.len);
				BEGIN();
				free(nm.data);
				END();
			} else
				out_bytes("", 0);
		}
	}
	free(t);
	tail(b, &args[0], false);
	free(d);
	free(b);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case OP_PARSE: op_parse(n_args > 1 && (arg_num(1) & 1), n_args > 1 && (arg_num(1) & 2), n_args > 1 && (arg_num(1) & 4), n_args > 1 && (arg_num(1) & 8)); break;
	case OP_UNPACK: case OP_SKIP: case OP_COPYU: case OP_LENU: case OP_COUNT:
	case OP_LCHOP: case OP_REV: case OP_DOWNNAME: case OP_D2S:
		op_names(op); break;
	case OP_ISSUB: op_issub(); break;
	case OP_DOWNRDATA: case OP_RD2S: case OP_RTRIP: case OP_S2RD: case OP_S2N:
		op_rdata(op); break;
	case OP_SER: case OP_TRUNC: case OP_DESER: case OP_SORT: case OP_DOWNRRSET: case OP_CMP:
	case OP_RRSETSTR: case OP_PRINT:
		op_rrset(op); break;
	case OP_TABLES: op_tables(); break;
	case OP_STRTAB: op_strtab(); break;
	case OP_FILELOAD: op_fileload(); break;
	case OP_NAMERT: op_namert(); break;
	case OP_VERSION:
		out_str(wdns_get_version());
		out_num(wdns_get_version_number());
		tail(NULL, NULL, true);
		break;
	default:
		fprintf(stderr, "harness: unknown op %u\n", op);
		_exit(97);
	}
}

#ifdef VF_FUZZ
static const char *fuzz_shape(uint8_t op)
{
	static int loose = -1;
	if (loose < 0) loose = getenv("VF_LOOSE") != NULL;
	switch (op) {
	case OP_PARSE: return "mf";
	case OP_UNPACK: case OP_COPYU: case OP_SKIP: return "bo";
	case OP_LENU: return "b";
	case OP_COUNT: case OP_LCHOP: case OP_REV: case OP_DOWNNAME: case OP_D2S: return loose ? "B" : "N";
	case OP_ISSUB: return loose ? "BB" : "NN";
	case OP_DOWNRDATA: case OP_RD2S: case OP_RTRIP: return "rhh";
	case OP_S2RD: return "thh";
	case OP_S2N: return "tf";
	case OP_DESER: return "b";
	case OP_SER: case OP_TRUNC: case OP_SORT: case OP_DOWNRRSET: return "Nhhw*";
	case OP_CMP: return loose ? "BhhwBhhw" : "NhhwNhhw";
	case OP_RRSETSTR: case OP_PRINT: return "fNhhw*";
	case OP_STRTAB: return "t";
	case OP_NAMERT: return "N";
	}
	return NULL;
}
#endif

#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return proto_main(argc, argv); }
#endif
