/* Small utilities of libmy: coding, formatting, numbers, checksums, strings. */
#include "proto.h"

#include <arpa/inet.h>
#include <sys/socket.h>

#include "libmy/b32_decode.h"
#include "libmy/b32_encode.h"
#include "libmy/b64_decode.h"
#include "libmy/b64_encode.h"
#include "libmy/crc32c.h"
#include "libmy/fast_inet_ntop.h"
#include "libmy/hex_decode.h"
#include "libmy/ip_arith.h"
#include "libmy/lookup3.h"
#include "libmy/my_format.h"
#include "libmy/print_string.h"
#include "libmy/string_replace.h"
#include "libmy/varint.h"

uint32_t my_crc32c_slicing(const uint8_t *, size_t);
#if __GNUC__ >= 3 && defined(__x86_64__)
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
#define HAVE_SSE42 1
#endif

/* An exact-size output buffer filled with a pattern. */
static char *obuf(size_t n)
{
	char *p = malloc(n ? n : 1);
	if (p == NULL) { fprintf(stderr, "harness: no memory\n"); _exit(90); }
#ifndef VF_MSAN
	memset(p, 0x5a, n ? n : 1);
#endif
	return p;
}

static uint16_t cut_at(unsigned a, size_t i)
{
	uint16_t v;
	memcpy(&v, args[a].p + 2 * i, 2);
	return v;
}

/* 1: SRC CUTS(u16 each) -> encoding */
static void op_b64enc(void)
{
	base64_encodestate st;
	size_t n = args[0].len, nc = args[1].len / 2, pos = 0, total = (n + 2) / 3 * 4, got = 0;
	char *res = obuf(total);

	base64_init_encodestate(&st);
	for (size_t i = 0; i <= nc; i++) {
		size_t e = i < nc ? cut_at(1, i) : n;
		if (e < pos || e > n)
			continue;
		uint8_t *in = dup_exact(args[0].p + pos, e - pos, false);
		char *o = obuf(total - got);
		int k = base64_encode_block((const char *) in, (int) (e - pos), o, &st);
		if (k < 0 || (size_t) k > total - got) {
			out_num(1); out_num((uint64_t) k);
			free(in); free(o); free(res);
			return;
		}
		if (k)
			memcpy(res + got, o, (size_t) k);
		got += (size_t) k;
		pos = e;
		free(in);
		free(o);
	}
	char *o = obuf(total - got);
	int k = base64_encode_blockend(o, &st);
	if (k < 0 || (size_t) k > total - got) {
		out_num(2); out_num((uint64_t) k);
	} else {
		if (k)
			memcpy(res + got, o, (size_t) k);
		got += (size_t) k;
		out_num(0);
		out_bytes(res, got);
	}
	free(o);
	free(res);
}

/* 2: CODE CUTS -> octets.  A decoder which is given a whole text needs at most
 * as many octets as the text has characters; one in pieces one more per piece,
 * for the octet under way. */
static void op_b64dec(void)
{
	base64_decodestate st;
	size_t n = args[0].len, nc = args[1].len / 2, pos = 0;
	bool whole = nc == 0;
	base64_init_decodestate(&st);
	char *res = obuf(n + 8);
	size_t got = 0;
	for (size_t i = 0; i <= nc; i++) {
		size_t e = i < nc ? cut_at(1, i) : n;
		if (e < pos || e > n)
			continue;
		uint8_t *in = dup_exact(args[0].p + pos, e - pos, false);
		size_t cap = e - pos + (whole ? 0 : 1);
		if (cap == 0)
			cap = 1;
		char *o = obuf(cap);
		int k = base64_decode_block((const char *) in, (int) (e - pos), o, &st);
		if (k < 0 || (size_t) k > cap || got + (size_t) k > n + 8) {
			out_num(1); out_num((uint64_t) k);
			free(in); free(o); free(res);
			return;
		}
		if (k)
			memcpy(res + got, o, (size_t) k);
		got += (size_t) k;
		pos = e;
		free(in);
		free(o);
	}
	out_num(0);
	out_bytes(res, got);
	free(res);
}

/* 3: SRC SIZE -> count, octets written */
static void op_b32enc(void)
{
	size_t size = (size_t) arg_num(1);
	uint8_t *in = dup_exact(args[0].p, args[0].len, false);
	char *o = obuf(size);
	size_t k = base32_encode(o, size, in, args[0].len);
	out_num(k);
	out_bytes(o, k <= size ? k : 0);
	free(in);
	free(o);
}

/* 4: TEXT SIZE -> count, octets written */
static void op_b32dec(void)
{
	size_t size = (size_t) arg_num(1);
	uint8_t *in = dup_exact(args[0].p, args[0].len, false);
	char *o = obuf(size);
	size_t k = base32_decode(o, size, (const char *) in, args[0].len);
	out_num(k);
	out_bytes(o, k <= size ? k : 0);
	free(in);
	free(o);
}

/* 5: SRC UPPER SIZE -> count, string */
static void op_hex(void)
{
	size_t size = (size_t) arg_num(2);
	uint8_t *in = dup_exact(args[0].p, args[0].len, false);
	char *o = obuf(size);
	size_t k = my_bytes_to_hex_str(in, args[0].len, arg_num(1) != 0, o, size);
	out_num(k);
	out_str(o);
	free(in);
	free(o);
}

/* 6: NUM UPPER SIZE */
static void op_u16hex(void)
{
	size_t size = (size_t) arg_num(2);
	char *o = obuf(size);
	size_t k = my_uint16_to_hex_str((uint16_t) arg_num(0), arg_num(1) != 0, o, size);
	out_num(k);
	out_str(o);
	free(o);
}

/* 7: NUM SIZE START? -> count, offset of the first digit, the string there */
static void op_u64str(void)
{
	size_t size = (size_t) arg_num(1);
	char *o = obuf(size);
	const char *start = NULL;
	bool want = arg_num(2) != 0;
	size_t k = my_uint64_to_str(arg_num(0), o, size, want ? &start : NULL);
	if (!want)
		start = o + (size - 1 - k);
	out_num(k);
	out_num((uint64_t) (start - o));
	out_str(start);
	free(o);
}

/* 8: FAMILY ADDRESSES SIZE: every address printed and compared with inet_ntop();
 * -> number compared, first difference */
static void op_ntop(void)
{
	int af = arg_num(0) == 4 ? AF_INET : AF_INET6;
	size_t w = af == AF_INET ? 4 : 16, n = args[1].len / w;
	socklen_t std = af == AF_INET ? INET_ADDRSTRLEN : INET6_ADDRSTRLEN;
	unsigned how = (unsigned) arg_num(2);
	uint64_t done = 0;
	char ref[INET6_ADDRSTRLEN + 1];
	for (size_t i = 0; i < n; i++) {
		uint8_t *a = dup_exact(args[1].p + i * w, w, false);
		char *o = obuf(std);
		const char *r;
		if (how)
			r = fast_inet_ntop(af, a, o, std);
		else if (af == AF_INET)
			r = fast_inet4_ntop(a, o, std);
		else
			r = fast_inet6_ntop(a, o, std);
		inet_ntop(af, a, ref, sizeof(ref));
		bool bad = r != o || strcmp(o, ref) != 0;
		if (bad) {
			out_num(done);
			out_bytes(a, w);
			out_str(r);
			out_str(ref);
			free(a); free(o);
			return;
		}
		free(a);
		free(o);
		done++;
	}
	out_num(done);
}

/* 9: VALUE -> lengths and encodings, and what they decode to */
static void op_varint(void)
{
	uint64_t v = arg_num(0), d64 = 0;
	uint32_t d32 = 0;
	size_t l = varint_length(v);
	out_num(l);
	if (l > 16)
		return;
	uint8_t *o = (uint8_t *) obuf(l);
	size_t k = varint_encode64(o, v);
	out_num(k);
	out_bytes(o, l);
	out_num(varint_length_packed(o, l));
	out_num(varint_decode64(o, &d64));
	out_num(d64);
	free(o);
	uint32_t v32 = (uint32_t) v;
	l = varint_length(v32);
	out_num(l);
	if (l > 16)
		return;
	o = (uint8_t *) obuf(l);
	k = varint_encode32(o, v32);
	out_num(k);
	out_bytes(o, l);
	out_num(varint_decode32(o, &d32));
	out_num(d32);
	d64 = 0;
	out_num(varint_decode64(o, &d64));
	out_num(d64);
	free(o);
}

/* 10: OCTETS -> announced length; if at least that many are there: decodings.
 * At least 10 octets without an end are decoded, too, and have to be refused. */
static void op_varbuf(void)
{
	uint8_t *in = dup_exact(args[0].p, args[0].len, false);
	size_t n = args[0].len;
	unsigned l = varint_length_packed(in, n);
	out_num(l);
	if (l != 0 || n >= 10) {
		uint64_t d = 0;
		size_t k = varint_decode64(in, &d);
		out_num(k);
		out_num(d);
	} else {
		out_num(0);
		out_num(0);
	}
	if (l != 0 || n >= 5) {
		uint32_t d = 0;
		size_t k = varint_decode32(in, &d);
		out_num(k);
		out_num(d);
	} else {
		out_num(0);
		out_num(0);
	}
	free(in);
}

/* 11: DATA OFFSET -> checksums of the implementations.  The data ends where
 * the heap block ends and starts OFFSET octets into it. */
static void op_crc(void)
{
	size_t off = (size_t) arg_num(1), n = args[0].len;
	uint8_t *b = (uint8_t *) obuf(off + n);
	if (n)
		memcpy(b + off, args[0].p, n);
	out_num(my_crc32c(b + off, n));
	out_num(my_crc32c_slicing(b + off, n));
#ifdef HAVE_SSE42
	if (my_crc32c_sse42_supported()) {
		out_num(my_crc32c_sse42(b + off, n));
		out_num(1);
	} else
#endif
	{
		out_num(my_crc32c_slicing(b + off, n));
		out_num(0);
	}
	out_num(n == 0 || memcmp(b + off, args[0].p, n) == 0);
	free(b);
}

/* 12: ADDRESS PREFIX -> lower, upper, next */
static void op_ip(void)
{
	unsigned pl = (unsigned) arg_num(1);
	size_t w = args[0].len;
	uint8_t *a = dup_exact(args[0].p, w, false), *l = (uint8_t *) obuf(w), *u = (uint8_t *) obuf(w);
	if (w == 4) {
		ip4_lower(a, pl, l);
		ip4_upper(a, pl, u);
	} else {
		ip6_lower(a, pl, l);
		ip6_upper(a, pl, u);
	}
	out_bytes(l, w);
	out_bytes(u, w);
	out_num(memcmp(a, args[0].p, w) == 0);
	if (w == 4)
		ip4_incr(a);
	else
		ip6_incr(a);
	out_bytes(a, w);
	/* in place */
	memcpy(a, args[0].p, w);
	if (w == 4)
		ip4_lower(a, pl, a);
	else
		ip6_lower(a, pl, a);
	out_bytes(a, w);
	memcpy(a, args[0].p, w);
	if (w == 4)
		ip4_upper(a, pl, a);
	else
		ip6_upper(a, pl, a);
	out_bytes(a, w);
	free(a); free(l); free(u);
}

/* 13: TEXT -> done?, octets, blocks left when refused */
static void op_hexdec(void)
{
	char *s = (char *) dup_exact(args[0].p, args[0].len, true);
	uint8_t *raw = NULL;
	size_t len = 0;
	live_blocks = 0;
	counting = true;
	bool ok = hex_decode(s, &raw, &len);
	counting = false;
	out_num(ok);
	out_num((uint64_t) live_blocks);
	if (ok) {
		out_bytes(raw, len);
		free(raw);
	} else {
		out_bytes("", 0);
	}
	free(s);
}

/* 14: STR OLD NEW -> result, blocks left */
static void op_replace(void)
{
	char *s = (char *) dup_exact(args[0].p, args[0].len, true);
	char *o = (char *) dup_exact(args[1].p, args[1].len, true);
	char *n = (char *) dup_exact(args[2].p, args[2].len, true);
	live_blocks = 0;
	counting = true;
	char *r = string_replace(s, o, n);
	counting = false;
	out_str(r);
	out_num((uint64_t) live_blocks);
	free(r);
	free(s); free(o); free(n);
}

/* 16: KEY OFFSET SEED SEED2 -> hashes */
static void op_hash(void)
{
	size_t off = (size_t) arg_num(1), n = args[0].len;
	uint32_t seed = (uint32_t) arg_num(2), pc = seed, pb = (uint32_t) arg_num(3);
	/* the functions read whole aligned words, as documented */
	uint8_t *b = (uint8_t *) obuf((off + n + 3) / 4 * 4);
	if (n)
		memcpy(b + off, args[0].p, n);
#ifdef VF_MSAN
	/* the octets of the last word beyond the key are masked off */
#endif
	out_num(my_hashlittle(b + off, n, seed));
	my_hashlittle2(b + off, n, &pc, &pb);
	out_num(pc);
	out_num(pb);
	out_num(my_hashbig(b + off, n, seed));
	if (n % 4 == 0 && off % 4 == 0) {
		out_num(my_hashword((const uint32_t *) (b + off), n / 4, seed));
		pc = seed;
		pb = (uint32_t) arg_num(3);
		my_hashword2((const uint32_t *) (b + off), n / 4, &pc, &pb);
		out_num(pc);
		out_num(pb);
	}
	free(b);
}

/* 17: DATA -> text */
static void op_printstr(void)
{
	uint8_t *in = dup_exact(args[0].p, args[0].len, false);
	char *t = NULL;
	size_t tl = 0;
	FILE *f = open_memstream(&t, &tl);
	print_string(in, args[0].len, f);
	fclose(f);
	out_bytes(t, tl);
	free(t);
	free(in);
}

/* 19: FAMILY SIZE NULLS -> result is null?, octets around untouched (buffer of
 * SIZE octets which is smaller than the standard size) */
/* read() as the program says: 0 N: up to N octets, 1: EINTR, 2 E: error E; the data runs out with the program */
static const uint8_t *rp, *rpe;
static uint64_t r_seq, r_over, r_calls;
static uint8_t *r_next, *r_end;
static ssize_t vf_read(int fd, void *buf, size_t n)
{
	r_calls++;
	if (fd != 77)
		r_over |= 1;
	if ((uint8_t *) buf != r_next)
		r_over |= 2;
	if (n != (size_t) (r_end - r_next))
		r_over |= 4;
	if (rp >= rpe)
		return 0;
	switch (*rp++) {
	case 0: {
		size_t k = *rp++;
		if (k > n)
			k = n;
		for (size_t i = 0; i < k; i++)
			((uint8_t *) buf)[i] = (uint8_t) (r_seq++ * 7 + 1);
		r_next += k;
		errno = EINTR;		/* what an earlier call left there */
		return (ssize_t) k;
	}
	case 1: errno = EINTR; return -1;
	default: errno = *rp++; return -1;
	}
}
#define read vf_read
#include "libmy/read_bytes.h"
#undef read

static void op_readbytes(void)
{
	size_t n = arg_num(1);
	uint8_t *b = malloc(n ? n : 1);
	memset(b, 0xee, n);
	rp = args[0].p;
	rpe = rp + args[0].len;
	r_seq = r_over = r_calls = 0;
	r_next = b;
	r_end = b + n;
	errno = (int) arg_num(2);
	out_num(read_bytes(77, b, n));
	out_num(r_over);
	out_num(r_calls);
	out_bytes(b, n);
	free(b);
}

#include "libmy/getenv_int.h"
static void op_getenv(void)
{
	uint64_t v = 0x5a5a5a5a5a5a5a5aULL;
	char *s = (char *) dup_exact(args[0].p, args[0].len, true);
	if (arg_num(1))
		setenv("VF_NUMBER", s, 1);
	else
		unsetenv("VF_NUMBER");
	out_num(getenv_int("VF_NUMBER", &v));
	out_num(v);
	free(s);
}

static void op_ntop_small(void)
{
	int af = (int) arg_num(0);
	size_t size = (size_t) arg_num(1);
	af = af == 4 ? AF_INET : af == 6 ? AF_INET6 : af;
	uint8_t a[16];
	memset(a, 0xff, sizeof(a));
	char *o = obuf(size);
	const char *r = fast_inet_ntop(af, a, o, (socklen_t) size);
	out_num(r == NULL);
	const char *q;
	if (af == AF_INET)
		q = fast_inet4_ntop(a, o, (socklen_t) size);
	else
		q = fast_inet6_ntop(a, o, (socklen_t) size);
	out_num(q == NULL);
	free(o);
}

/* 20: FROM COUNT STEP: IPv4 addresses in bulk -> number, first difference */
static void op_ntop4_bulk(void)
{
	uint64_t from = arg_num(0), count = arg_num(1), step = arg_num(2);
	char o[INET_ADDRSTRLEN], ref[INET_ADDRSTRLEN + 8];
	uint64_t i;
	for (i = 0; i < count; i++) {
		uint32_t a = (uint32_t) (from + i * step);
		uint8_t b[4] = { (uint8_t) (a >> 24), (uint8_t) (a >> 16), (uint8_t) (a >> 8), (uint8_t) a };
		const char *r = fast_inet4_ntop(b, o, sizeof(o));
		/* reference: octets joined with dots, without leading zeros */
		char *p = ref;
		for (int k = 0; k < 4; k++) {
			unsigned v = b[k];
			if (k)
				*p++ = '.';
			if (v >= 100)
				*p++ = (char) ('0' + v / 100);
			if (v >= 10)
				*p++ = (char) ('0' + v / 10 % 10);
			*p++ = (char) ('0' + v % 10);
		}
		*p = 0;
		if (r != o || strcmp(o, ref) != 0) {
			out_num(i);
			out_bytes(b, 4);
			out_str(r);
			out_str(ref);
			return;
		}
	}
	out_num(i);
}

/* 21: FROM COUNT STEP: numbers in bulk through my_uint64_to_str() and varints */
static void op_num_bulk(void)
{
	uint64_t v = arg_num(0), count = arg_num(1), step = arg_num(2), i;
	char ref[32], o[32];
	uint8_t e[16];
	for (i = 0; i < count; i++, v += step) {
		const char *st = NULL;
		int n = snprintf(ref, sizeof(ref), "%llu", (unsigned long long) v);
		size_t k = my_uint64_to_str(v, o, sizeof(o), &st);
		uint64_t d = 0;
		size_t l = varint_encode64(e, v), m = varint_decode64(e, &d);
		uint32_t d32 = 0;
		uint8_t e2[16];
		size_t l2 = varint_encode32(e2, (uint32_t) v), m2 = varint_decode32(e2, &d32);
		if (k != (size_t) n || strcmp(st, ref) != 0) {
			out_num(i); out_num(1); out_num(v);
			return;
		}
		if (l != m || d != v || l != varint_length(v) || l2 != m2 || d32 != (uint32_t) v ||
		    l2 != varint_length((uint32_t) v)) {
			out_num(i); out_num(2); out_num(v);
			return;
		}
	}
	out_num(i);
	out_num(0);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_b64enc(); break;
	case 2: op_b64dec(); break;
	case 3: op_b32enc(); break;
	case 4: op_b32dec(); break;
	case 5: op_hex(); break;
	case 6: op_u16hex(); break;
	case 7: op_u64str(); break;
	case 8: op_ntop(); break;
	case 9: op_varint(); break;
	case 10: op_varbuf(); break;
	case 11: op_crc(); break;
	case 12: op_ip(); break;
	case 13: op_hexdec(); break;
	case 14: op_replace(); break;
	case 16: op_hash(); break;
	case 17: op_printstr(); break;
	case 15: op_readbytes(); break;
	case 18: op_getenv(); break;
	case 19: op_ntop_small(); break;
	case 20: op_ntop4_bulk(); break;
	case 21: op_num_bulk(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
