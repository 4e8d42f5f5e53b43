/*
 * The coverage-guided side of a harness: libFuzzer mutates whole cases (op and
 * arguments, as in proto.h) argument by argument, keeping each argument of the
 * kind its operation's shape asks for.  Nothing is judged here but by the
 * sanitizers: what reaches new code is kept, and the monitor replays and
 * judges it afterwards.
 *
 * Shape letters: m message, b octets, B at most 255 octets, r at most 65535
 * octets, t text without NUL, N valid wire name, h 16-bit number, w 32-bit
 * number, q 64-bit number, o offset into argument 0, f fixed, * any number of further r,
 * + any number of further t.
 */
#ifdef VF_FUZZ
size_t LLVMFuzzerMutate(uint8_t *data, size_t size, size_t max);
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size);
size_t LLVMFuzzerCustomMutator(uint8_t *data, size_t size, size_t max, unsigned seed);
size_t LLVMFuzzerCustomCrossOver(const uint8_t *d1, size_t s1, const uint8_t *d2, size_t s2, uint8_t *out, size_t max, unsigned seed);
static const char *fuzz_shape(uint8_t op);

#define FZ_MAXARGS 300
typedef struct { uint8_t op; unsigned n; const uint8_t *p[FZ_MAXARGS]; uint32_t l[FZ_MAXARGS]; } fz_t;

static bool fz_split(fz_t *z, const uint8_t *d, size_t n)
{
	if (n < 1) return false;
	z->op = d[0];
	z->n = 0;
	size_t i = 1;
	while (i < n) {
		uint32_t l;
		if (z->n >= FZ_MAXARGS || n - i < 4) return false;
		memcpy(&l, d + i, 4);
		i += 4;
		if (l > n - i) return false;
		z->p[z->n] = d + i;
		z->l[z->n++] = l;
		i += l;
	}
	return true;
}

static size_t fz_join(const fz_t *z, uint8_t *o, size_t max)
{
	size_t i = 1;
	if (max < 1) return 0;
	o[0] = z->op;
	for (unsigned k = 0; k < z->n; k++) {
		if (max - i < 4 || max - i - 4 < z->l[k]) return 0;
		memcpy(o + i, &z->l[k], 4);
		memcpy(o + i + 4, z->p[k], z->l[k]);
		i += 4 + z->l[k];
	}
	return i;
}

static bool fz_name_ok(const uint8_t *p, size_t n)
{
	size_t i = 0;
	if (n < 1 || n > 255) return false;
	while (i < n) {
		if (p[i] == 0) return i + 1 == n;
		if (p[i] > 63) return false;
		i += p[i] + 1u;
	}
	return false;
}

static char fz_kind(const char *s, unsigned k)
{
	size_t n = strlen(s);
	if (n && (s[n - 1] == '*' || s[n - 1] == '+')) {
		if (k >= n - 1) return s[n - 1] == '*' ? 'r' : 't';
		return s[k];
	}
	return k < n ? s[k] : 0;
}

static bool fz_ok(const fz_t *z)
{
	const char *s = fuzz_shape(z->op);
	if (s == NULL) return false;
	size_t n = strlen(s);
	bool open = n && (s[n - 1] == '*' || s[n - 1] == '+');
	if (open ? z->n < n - 1 : z->n != n) return false;
	for (unsigned k = 0; k < z->n; k++) {
		uint64_t v = 0;
		switch (fz_kind(s, k)) {
		case 'B': if (z->l[k] > 255) return false; break;
		case 'r': case 'm': if (z->l[k] > 65535) return false; break;
		case 't': if (memchr(z->p[k], 0, z->l[k])) return false; break;
		case 'N': if (!fz_name_ok(z->p[k], z->l[k])) return false; break;
		case 'h': case 'w': case 'q': case 'o':
			if (z->l[k] != 8) return false;
			memcpy(&v, z->p[k], 8);
			if (fz_kind(s, k) == 'h' && v > 0xffff) return false;
			if (fz_kind(s, k) == 'w' && v > 0xffffffffu) return false;
			if (fz_kind(s, k) == 'o' && v > z->l[0]) return false;
			break;
		case 'b': case 'f': break;
		default: return false;
		}
	}
	return true;
}

#ifdef VF_FUZZ_ADMIT
static bool fuzz_admit(const fz_t *z);
#endif

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	static bool init;
	static fz_t z;
	if (!init) { out_reserve(1u << 22); init = true; }
	if (!fz_split(&z, d, n) || !fz_ok(&z)) return -1;
#ifdef VF_FUZZ_ADMIT
	if (!fuzz_admit(&z)) return -1;
#endif
	n_args = z.n;
	for (unsigned k = 0; k < z.n; k++) { args[k].p = z.p[k]; args[k].len = z.l[k]; }
	out_len = 0;
	live_blocks = 0;
	run_case(z.op);
	return 0;
}

static uint64_t fz_state;
static uint32_t fz_rnd(uint32_t n)
{
	fz_state ^= fz_state << 13; fz_state ^= fz_state >> 7; fz_state ^= fz_state << 17;
	return n ? (uint32_t) ((fz_state >> 11) % n) : 0;
}

/* where the name at i ends, or 0 */
static size_t fz_skip(const uint8_t *b, size_t n, size_t i)
{
	while (i < n) {
		if (b[i] == 0) return i + 1;
		if (b[i] >= 0xc0) return i + 2 <= n ? i + 2 : 0;
		i += b[i] + 1u;
	}
	return 0;
}

/* Mutates one record of a message, keeping its rdlength and the counts right. */
static size_t fz_message(uint8_t *b, size_t n, size_t max)
{
	struct { size_t a, fix, rd, e; unsigned sec; } rr[64];
	unsigned k = 0;
	if (n < 12) return 0;
	size_t i = 12;
	for (unsigned s = 0; s < 4; s++) {
		unsigned c = b[4 + 2 * s] * 256u + b[5 + 2 * s];
		while (c-- && k < 64) {
			size_t e = fz_skip(b, n, i);
			if (e == 0 || e + 4 > n) goto done;
			if (s == 0) {
				rr[k].a = i; rr[k].fix = e; rr[k].rd = rr[k].e = e + 4; rr[k].sec = 0;
			} else {
				if (e + 10 > n || e + 10 + b[e + 8] * 256u + b[e + 9] > n) goto done;
				rr[k].a = i; rr[k].fix = e; rr[k].rd = e + 10;
				rr[k].e = e + 10 + b[e + 8] * 256u + b[e + 9]; rr[k].sec = s;
			}
			i = rr[k++].e;
		}
	}
done:
	if (k == 0) return 0;
	unsigned w = fz_rnd(k);
	unsigned cnt = 4 + 2 * rr[w].sec;
	size_t len = rr[w].e - rr[w].a;
	switch (fz_rnd(8)) {
	case 0:		/* once more, here or in the next section */
		if (n + len > max || b[cnt + 1] == 255) return 0;
		memmove(b + rr[w].e + len, b + rr[w].e, n - rr[w].e);
		memmove(b + rr[w].e, b + rr[w].a, len);
		b[cnt + 1]++;
		return n + len;
	case 1:		/* away with it */
		if (b[cnt + 1] == 0) return 0;
		memmove(b + rr[w].a, b + rr[w].e, n - rr[w].e);
		b[cnt + 1]--;
		return n - len;
	case 2:		/* type, class, TTL */
		LLVMFuzzerMutate(b + rr[w].fix, 4, 4);
		return n;
	case 3:
		if (rr[w].sec) LLVMFuzzerMutate(b + rr[w].fix + 4, 4, 4);
		return n;
	case 4:		/* type of another record */
		memcpy(b + rr[w].fix, b + rr[fz_rnd(k)].fix, 2);
		return n;
	default: {	/* rdata */
		if (rr[w].sec == 0) return 0;
		size_t rl = rr[w].e - rr[w].rd, cap = rl + 64;
		if (n + 64 > max || rl + 64 > 60000) return 0;
		uint8_t *t = malloc(cap);
		memcpy(t, b + rr[w].rd, rl);
		size_t nl = LLVMFuzzerMutate(t, rl, cap);
		memmove(b + rr[w].rd + nl, b + rr[w].e, n - rr[w].e);
		memcpy(b + rr[w].rd, t, nl);
		free(t);
		b[rr[w].rd - 2] = (uint8_t) (nl >> 8);
		b[rr[w].rd - 1] = (uint8_t) nl;
		return n - rl + nl;
	}
	}
}

static void fz_number(uint8_t *v, char kind, size_t len0)
{
	static const uint16_t T[] = { 0, 1, 2, 5, 6, 11, 12, 13, 15, 16, 18, 24, 25, 28, 29, 30, 33, 35, 36, 37, 38, 39, 41, 42, 43, 44, 45, 46,
		47, 48, 50, 51, 52, 55, 59, 60, 61, 62, 64, 65, 99, 108, 109, 249, 250, 251, 252, 253, 254, 255, 256, 257, 32768, 32769, 65280, 65535, 3, 4 };
	uint64_t x;
	memcpy(&x, v, 8);
	switch (fz_rnd(5)) {
	case 0: if (kind == 'h') { x = T[fz_rnd(sizeof(T) / sizeof(T[0]))]; break; } /* fall through */
	case 1: x += fz_rnd(3) - 1u; break;
	case 2: LLVMFuzzerMutate(v, kind == 'h' ? 2 : kind == 'w' ? 4 : 8, kind == 'h' ? 2 : kind == 'w' ? 4 : 8); memcpy(&x, v, 8); break;
	case 3: x ^= 1ull << fz_rnd(64); break;
	default: x = fz_rnd(4) ? x & 0xff : fz_rnd(0x7fffffff); break;
	}
	if (kind == 'h') x &= 0xffff;
	if (kind == 'w') x &= 0xffffffffu;
	if (kind == 'o') x %= len0 + 1;
	memcpy(v, &x, 8);
}

size_t LLVMFuzzerCustomMutator(uint8_t *d, size_t n, size_t max, unsigned seed)
{
	static fz_t z;
	static uint8_t *copy, *piece;
	fz_state = seed * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
	if (copy == NULL) { copy = malloc(1 << 20); piece = malloc(1 << 20); }
	if (n > (1 << 19) || max > (1 << 20)) return n;
	memcpy(copy, d, n);
	if (!fz_split(&z, copy, n) || fuzz_shape(z.op) == NULL) return n;
	const char *s = fuzz_shape(z.op);
	size_t sl = strlen(s);
	for (int turn = 0; turn < 8; turn++) {
		if (z.n == 0) return n;
		unsigned k = fz_rnd(z.n);
		char kind = fz_kind(s, k);
		if (kind == 0 || kind == 'f') continue;
		if (sl && (s[sl - 1] == '*' || s[sl - 1] == '+') && k >= sl - 1 && fz_rnd(3) == 0) {
			/* the list: once more, drop, exchange */
			unsigned how = fz_rnd(3), o = (unsigned) (sl - 1) + fz_rnd(z.n - (unsigned) (sl - 1));
			if (how == 0 && z.n < FZ_MAXARGS) { z.p[z.n] = z.p[k]; z.l[z.n] = z.l[k]; z.n++; }
			else if (how == 1) { z.p[k] = z.p[z.n - 1]; z.l[k] = z.l[z.n - 1]; z.n--; }
			else { const uint8_t *tp = z.p[k]; uint32_t tl = z.l[k]; z.p[k] = z.p[o]; z.l[k] = z.l[o]; z.p[o] = tp; z.l[o] = tl; }
		} else {
			size_t room = max > n ? max - n : 0;
			size_t cap = z.l[k] + room;
			if (kind == 'B' && cap > 255) cap = 255;
			if ((kind == 'r' || kind == 'm') && cap > 65535) cap = 65535;
			if (cap < z.l[k]) cap = z.l[k];
			memcpy(piece, z.p[k], z.l[k]);
			size_t nl = z.l[k];
			if (kind == 'h' || kind == 'w' || kind == 'q' || kind == 'o') {
				if (z.l[k] != 8) return n;
				fz_number(piece, kind, z.l[0]);
			} else {
				nl = 0;
				if (kind == 'm' && fz_rnd(4)) {
					nl = fz_message(piece, z.l[k], cap);
					if (nl == 0) memcpy(piece, z.p[k], z.l[k]);
				}
				if (nl == 0)
					nl = cap ? LLVMFuzzerMutate(piece, z.l[k], cap) : 0;
				if (kind == 't')
					for (size_t i = 0; i < nl; i++)
						if (piece[i] == 0) piece[i] = (uint8_t) "0 .\\a1\"\t"[fz_rnd(8)];
				if (kind == 'N' && !fz_name_ok(piece, nl)) continue;
				if (s[0] && k == 0 && strchr(s, 'o') && nl < z.l[0]) {
					/* the offset has to stay inside */
					for (unsigned q = 1; q < z.n; q++) {
						uint64_t v;
						if (fz_kind(s, q) != 'o') continue;
						memcpy(&v, z.p[q], 8);
						if (v > nl) { v = nl; memcpy(copy + (z.p[q] - copy), &v, 8); }
					}
				}
			}
			z.p[k] = piece;
			z.l[k] = (uint32_t) nl;
		}
		size_t r = fz_join(&z, d, max);
		if (r) return r;
		memcpy(d, copy, n);
		return n;
	}
	return n;
}

size_t LLVMFuzzerCustomCrossOver(const uint8_t *d1, size_t s1, const uint8_t *d2, size_t s2, uint8_t *out, size_t max, unsigned seed)
{
	static fz_t a, b;
	fz_state = seed * 0x9e3779b97f4a7c15ull + 362436069;
	if (!fz_split(&a, d1, s1) || !fz_split(&b, d2, s2) || a.n == 0 || b.n == 0 || fuzz_shape(a.op) == NULL || fuzz_shape(b.op) == NULL)
		return 0;
	for (int t = 0; t < 8; t++) {
		unsigned i = fz_rnd(a.n), j = fz_rnd(b.n);
		if (fz_kind(fuzz_shape(a.op), i) != fz_kind(fuzz_shape(b.op), j) || fz_kind(fuzz_shape(a.op), i) == 'f') continue;
		a.p[i] = b.p[j];
		a.l[i] = b.l[j];
		if (!fz_ok(&a)) return 0;
		return fz_join(&a, out, max);
	}
	return 0;
}
#endif
