/* libmy's queues.  Sequential histories (any build), and in the "sched" build
 * one producer and one consumer as coroutines that can be exchanged at every
 * single memory access of the queue's code: the compiler's thread-sanitizer
 * instrumentation calls into this file instead of into the sanitizer. */
#include "proto.h"
#include "libmy/my_queue.h"
#include <pthread.h>

extern const struct my_queue_ops vf_mutex_ops;
static const struct my_queue_ops direct_ops = {
	.init = my_queue_init, .destroy = my_queue_destroy, .impl_type = my_queue_impl_type,
	.insert = my_queue_insert, .remove = my_queue_remove,
};
static const struct my_queue_ops *variant(void) { return arg_num(0) ? &vf_mutex_ops : &direct_ops; }

static uint8_t pattern(uint64_t seq, uint32_t j)
{
	uint64_t x = seq * 0x9e3779b97f4a7c15ULL + j * 0xbf58476d1ce4e5b9ULL + 0x1234567;
	return j == 0 ? (uint8_t) (seq * 37 + 11) : (uint8_t) (x >> 32);
}
static void fill(uint8_t *p, uint64_t seq, uint32_t n) { for (uint32_t j = 0; j < n; j++) p[j] = pattern(seq, j); }
static bool intact(const uint8_t *p, uint64_t seq, uint32_t n) { for (uint32_t j = 0; j < n; j++) if (p[j] != pattern(seq, j)) return false; return true; }

/* 1: initialisation.  VARIANT N SIZE */
static void op_init(void)
{
	const struct my_queue_ops *o = variant();
	unsigned n = (unsigned) arg_num(1), z = (unsigned) arg_num(2);
	counting = true;
	live_blocks = 0;
	struct my_queue *q = o->init(n, z);
	out_num(q != NULL);
	o->destroy(&q);
	out_num(q == NULL);
	counting = false;
	out_num((uint64_t) live_blocks);
	out_str(o->impl_type());
}

/* 2: a sequential history.  VARIANT N SIZE PROGRAM; 1 insert, 0 remove, +2 without a size */
static void op_seq(void)
{
	const struct my_queue_ops *o = variant();
	unsigned n = (unsigned) arg_num(1), z = (unsigned) arg_num(2);
	struct my_queue *q = o->init(n, z);
	uint64_t p = 0, c = 0;
	for (uint32_t i = 0; i < args[3].len; i++) {
		uint8_t k = args[3].p[i];
		uint8_t *b = malloc(z ? z : 1);
		unsigned x = 0xdeadbeef;
		bool r;
		if (k & 1) {
			fill(b, p, z);
			r = o->insert(q, b, k & 2 ? NULL : &x);
			if (!intact(b, p, z))
				out_str("item changed");
			p += r;
			out_num(r);
		} else {
			memset(b, 0x5a, z);
			r = o->remove(q, b, k & 2 ? NULL : &x);
			out_num(r ? intact(b, c, z) ? 1 : 2 : 0);
			c += r;
		}
		out_num(x);
		free(b);
	}
	o->destroy(&q);
	out_num(q == NULL);
}

#ifdef VF_SCHED
#include <ucontext.h>

#define NOSAN
static ucontext_t ctx_main, ctx[2];
static char stack[2][1 << 16];
static int cur;
static bool active, done[2], blocked[2];
static uint64_t steps, limit_steps, order_hash;

/* schedule */
static int sch_mode;			/* 0: at the listed steps, 1: at random */
static uint64_t sch_at[8];
static int sch_n, sch_i;
static uint64_t rng, sch_prob;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

/* stores that no barrier has ordered yet */
static bool delay;
struct store { uint8_t *a; uint8_t n; uint8_t old[8], now[8]; bool off; };
static struct store pend[2][128];
static int n_pend[2];

/* what was observed */
static uint64_t o_switches, o_inside, o_forced, o_delayed, o_accept, o_full, o_remove, o_empty;
static bool in_op[2];
static char bad[400];
static void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void violation(const char *fmt, ...)
{
	if (bad[0])
		return;
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(bad, sizeof(bad), fmt, ap);
	va_end(ap);
}

/* some of this side's stores are not visible yet; the others are, for good */
static void hide(int s)
{
	for (int i = n_pend[s] - 1; i >= 0; i--) {
		struct store *p = &pend[s][i];
		p->off = false;
		if (rnd() & 1)
			continue;
		bool later = false;	/* a newer store to the place is out already */
		for (int j = i + 1; j < n_pend[s]; j++)
			if (!pend[s][j].off && pend[s][j].a < p->a + p->n && p->a < pend[s][j].a + pend[s][j].n)
				later = true;
		if (later)
			continue;
		memcpy(p->now, p->a, p->n);
		memcpy(p->a, p->old, p->n);
		p->off = true;
		if (memcmp(p->now, p->old, p->n) != 0)
			o_delayed++;
	}
	int k = 0;
	for (int i = 0; i < n_pend[s]; i++)
		if (pend[s][i].off)
			pend[s][k++] = pend[s][i];
	n_pend[s] = k;
}

static void show(int s)
{
	for (int i = 0; i < n_pend[s]; i++) {
		struct store *p = &pend[s][i];
		if (p->off && memcmp(p->a, p->old, p->n) == 0)
			memcpy(p->a, p->now, p->n);
		p->off = false;
	}
}

static void give_up(void)
{
	active = false;
	swapcontext(&ctx[cur], &ctx_main);
}

static void to_other(void)
{
	int me = cur, ot = !cur;
	if (done[ot])
		return;
	o_switches++;
	if (in_op[me] && in_op[ot])
		o_inside++;
	if (delay) {
		hide(me);
		show(ot);
	}
	cur = ot;
	swapcontext(&ctx[me], &ctx[ot]);
}

static void point(uint64_t what)
{
	if (!active)
		return;
	steps++;
	order_hash = (order_hash ^ (what * 2 + (uint64_t) cur)) * 0x100000001b3ULL;
	if (steps > limit_steps) {
		violation("no end after %llu accesses", (unsigned long long) steps);
		give_up();
	}
	bool sw = false;
	if (sch_mode == 0) {
		if (sch_i < sch_n && sch_at[sch_i] == steps) {
			sch_i++;
			sw = true;
		} else if (steps > 20000 && steps % 64 == 0)
			sw = true;
	} else
		sw = rnd() % 1024 < sch_prob;
	if (sw)
		to_other();
}

static void vf_access(void *a, size_t n, bool write)
{
	if (!active)
		return;
	if (write && delay)
		for (size_t i = 0; i < n; i += 8) {
			size_t k = n - i < 8 ? n - i : 8;
			int s = cur;
			if (n_pend[s] == 128) {
				memmove(&pend[s][0], &pend[s][1], sizeof(pend[s][0]) * 127);
				n_pend[s]--;
			}
			struct store *p = &pend[s][n_pend[s]++];
			p->a = (uint8_t *) a + i;
			p->n = (uint8_t) k;
			p->off = false;
			memcpy(p->old, p->a, k);
		}
	point(4 + write);
}

void vf_barrier(void)
{
	if (!active)
		return;
	point(6);		/* what is not ordered may still be late here */
	n_pend[cur] = 0;
}

/* locks */
static pthread_mutex_t *held[2];
int vf_trylock(pthread_mutex_t *m)
{
	if (!active)
		return 0;
	vf_barrier();
	if (held[0] == m || held[1] == m)
		return EBUSY;
	held[cur] = m;
	return 0;
}
int vf_lock(pthread_mutex_t *m)
{
	if (!active)
		return 0;
	vf_barrier();
	while (held[0] == m || held[1] == m) {
		if (held[cur] == m || done[!cur] || blocked[!cur]) {
			violation("deadlock");
			give_up();
		}
		blocked[cur] = true;
		o_forced++;
		to_other();
		blocked[cur] = false;
	}
	held[cur] = m;
	return 0;
}
int vf_unlock(pthread_mutex_t *m)
{
	if (!active)
		return 0;
	if (held[cur] != m) {
		violation("a mutex is unlocked that is not locked");
		give_up();
	}
	n_pend[cur] = 0;
	held[cur] = NULL;
	point(7);
	return 0;
}

/* the instrumentation's entry points */
#define RW(n) \
	void __tsan_read##n(void *a) { vf_access(a, n, false); } \
	void __tsan_write##n(void *a) { vf_access(a, n, true); } \
	void __tsan_volatile_read##n(void *a) { vf_access(a, n, false); } \
	void __tsan_volatile_write##n(void *a) { vf_access(a, n, true); } \
	void __tsan_unaligned_read##n(void *a) { vf_access(a, n, false); } \
	void __tsan_unaligned_write##n(void *a) { vf_access(a, n, true); } \
	void __tsan_unaligned_volatile_read##n(void *a) { vf_access(a, n, false); } \
	void __tsan_unaligned_volatile_write##n(void *a) { vf_access(a, n, true); } \
	void __tsan_read_write##n(void *a) { vf_access(a, n, false); vf_access(a, n, true); } \
	void __tsan_unaligned_read_write##n(void *a) { vf_access(a, n, false); vf_access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *a, size_t n) { vf_access(a, n, false); }
void __tsan_write_range(void *a, size_t n) { vf_access(a, n, true); }
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	/* piece by piece: a copy is not atomic */
	size_t step = n <= 8 ? (n + 1) / 2 : n <= 32 ? 8 : n / 4;
	for (size_t i = 0; i < n; i += step) {
		size_t k = n - i < step ? n - i : step;
		vf_access((uint8_t *) s + i, k, false);
		vf_access((uint8_t *) d + i, k, true);
		memcpy((uint8_t *) d + i, (const uint8_t *) s + i, k);
	}
	return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	vf_access((void *) s, n, false);
	vf_access(d, n, true);
	return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) { vf_access(d, n, true); return memset(d, c, n); }
#define ATOMIC(n, T) \
	T __tsan_atomic##n##_load(const volatile T *a, int mo) { (void) mo; vf_access((void *) a, sizeof(T), false); return *a; } \
	void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { if (mo >= 3) vf_barrier(); vf_access((void *) a, sizeof(T), true); *a = v; if (mo == 5) vf_barrier(); } \
	T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { (void) mo; vf_barrier(); T o = *a; *a = v; vf_barrier(); return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { (void) mo; vf_barrier(); T o = *a; *a = (T) (o + v); vf_barrier(); return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { (void) mo; vf_barrier(); T o = *a; *a = (T) (o - v); vf_barrier(); return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { (void) mo; vf_barrier(); T o = *a; *a = (T) (o & v); vf_barrier(); return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { (void) mo; vf_barrier(); T o = *a; *a = (T) (o | v); vf_barrier(); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { (void) mo; (void) fmo; vf_barrier(); int r = *a == *e; if (r) *a = v; else *e = *a; vf_barrier(); return r; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fmo); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void) mo; vf_barrier(); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }

/* the two sides */
static const struct my_queue_ops *qo;
static struct my_queue *q;
static unsigned q_n, q_z, tries[2];
static int64_t P, C, Pfly, Cfly;
static uint8_t buf[2][512];

static void side(int s)
{
	int64_t cap = (int64_t) q_n - 1;
	for (unsigned i = 0; i < tries[s]; i++) {
		unsigned x = 0xdeadbeef;
		if (s == 0) {
			fill(buf[0], (uint64_t) P, q_z);
			int64_t c0 = C;
			Pfly = 1;
			in_op[0] = true;
			point(1);
			bool ok = qo->insert(q, buf[0], &x);
			in_op[0] = false;
			Pfly = 0;
			int64_t c1 = C + Cfly;
			order_hash = (order_hash ^ (8 + (uint64_t) ok)) * 0x100000001b3ULL;
			if (ok) {
				o_accept++;
				P++;
				if (P - c1 > (int64_t) q_n)
					violation("accepted as element %lld although only %lld were removed", (long long) P, (long long) c1);
				if ((int64_t) x > cap - (P - c1) || (!delay && (int64_t) x < cap - (P - c0)))
					violation("space %u after insertion %lld with %lld to %lld removed", x, (long long) P, (long long) c0, (long long) c1);
			} else {
				o_full++;
				if (!delay && P - c0 < cap)
					violation("insertion refused with %lld elements inside", (long long) (P - c0));
				if (x != 0)
					violation("space %u after a refused insertion", x);
			}
		} else {
			memset(buf[1], 0x5a, q_z);
			int64_t p0 = P;
			Cfly = 1;
			in_op[1] = true;
			point(2);
			bool ok = qo->remove(q, buf[1], &x);
			in_op[1] = false;
			Cfly = 0;
			int64_t p1 = P + Pfly;
			order_hash = (order_hash ^ (10 + (uint64_t) ok)) * 0x100000001b3ULL;
			if (ok) {
				o_remove++;
				if (C >= p1)
					violation("removal %lld although only %lld were inserted", (long long) C + 1, (long long) p1);
				if (!intact(buf[1], (uint64_t) C, q_z))
					violation("removal %lld is not element %lld intact", (long long) C + 1, (long long) C + 1);
				C++;
				if ((int64_t) x > p1 - C || (!delay && (int64_t) x < p0 - C))
					violation("count %u after removal %lld with %lld to %lld inserted", x, (long long) C, (long long) p0, (long long) p1);
			} else {
				o_empty++;
				if (!delay && p0 - C > 0)
					violation("removal refused with %lld elements inside", (long long) (p0 - C));
				if (x != 0)
					violation("count %u after a refused removal", x);
			}
		}
		if (bad[0])
			give_up();
		point(3);
	}
	done[s] = true;
	if (held[s]) {
		violation("a mutex stays locked");
		give_up();
	}
	if (done[!s])
		active = false;
	else {
		if (delay) {	/* everything becomes visible in the end */
			n_pend[s] = 0;
			show(!s);
		}
		cur = !s;
		setcontext(&ctx[!s]);
	}
	setcontext(&ctx_main);
}

/* one schedule; rotate: pairs done before, prefill: elements inside at the start */
static void schedule(int first, unsigned rotate, unsigned prefill)
{
	uint8_t b[512];
	unsigned x;
	q = qo->init(q_n, q_z);
	P = C = Pfly = Cfly = 0;
	for (unsigned i = 0; i < rotate; i++) {
		fill(b, (uint64_t) P, q_z);
		if (qo->insert(q, b, &x))
			P++;
		if (qo->remove(q, b, &x))
			C++;
	}
	for (unsigned i = 0; i < prefill && i < q_n - 1; i++) {
		fill(b, (uint64_t) P, q_z);
		if (qo->insert(q, b, &x))
			P++;
	}
	for (int s = 0; s < 2; s++) {
		done[s] = blocked[s] = in_op[s] = false;
		held[s] = NULL;
		n_pend[s] = 0;
		getcontext(&ctx[s]);
		ctx[s].uc_stack.ss_sp = stack[s];
		ctx[s].uc_stack.ss_size = sizeof(stack[s]);
		ctx[s].uc_link = &ctx_main;
		makecontext(&ctx[s], (void (*)(void)) side, 1, s);
	}
	steps = 0;
	sch_i = 0;
	order_hash = 0xcbf29ce484222325ULL;
	cur = first;
	active = true;
	swapcontext(&ctx_main, &ctx[first]);
	active = false;
	if (!bad[0]) {		/* what is still inside comes out */
		while (qo->remove(q, b, &x)) {
			if (!intact(b, (uint64_t) C, q_z)) {
				violation("at the end, removal %lld is not element %lld intact", (long long) C + 1, (long long) C + 1);
				break;
			}
			C++;
		}
		if (C != P)
			violation("%lld elements accepted, %lld delivered", (long long) P, (long long) C);
		qo->destroy(&q);
	}
}

/* distinct interleavings */
static uint64_t *set;
static size_t set_n, set_cap;
static void note(uint64_t h)
{
	if (set_n * 2 >= set_cap) {
		size_t oc = set_cap;
		uint64_t *os = set;
		set_cap = oc ? oc * 2 : 1 << 16;
		set = calloc(set_cap, 8);
		set_n = 0;
		for (size_t i = 0; i < oc; i++)
			if (os[i])
				note(os[i]);
		free(os);
	}
	if (h == 0)
		h = 1;
	size_t i = h & (set_cap - 1);
	while (set[i] && set[i] != h)
		i = (i + 1) & (set_cap - 1);
	if (!set[i]) {
		set[i] = h;
		set_n++;
	}
}

/* 3: VARIANT N SIZE INSERTS REMOVES ROTATE PREFILL DELAY BOUND PART PARTS RUNS SEED
 * RUNS == 0: every schedule with at most BOUND preemptions (slice PART of PARTS) */
static void op_sched(void)
{
	qo = variant();
	q_n = (unsigned) arg_num(1);
	q_z = (unsigned) arg_num(2);
	tries[0] = (unsigned) arg_num(3);
	tries[1] = (unsigned) arg_num(4);
	unsigned rotate = (unsigned) arg_num(5), prefill = (unsigned) arg_num(6);
	delay = arg_num(7) != 0;
	int bound = (int) arg_num(8);
	uint64_t part = arg_num(9), parts = arg_num(10), runs = arg_num(11), n_runs = 0;
	rng = arg_num(12) | 1;
	o_switches = o_inside = o_forced = o_delayed = o_accept = o_full = o_remove = o_empty = 0;
	set_n = 0;
	if (set_cap)
		memset(set, 0, set_cap * 8);
	bad[0] = 0;
	limit_steps = 200000;
	char where[200] = "";
	if (runs) {
		sch_mode = 1;
		for (; n_runs < runs && !bad[0]; n_runs++) {
			uint64_t r = rnd();
			sch_prob = (uint64_t[]) { 20, 60, 150, 300, 500, 700 }[r % 6];
			schedule((r >> 8) & 1, rotate ? (unsigned) (r >> 16) % rotate : 0, (unsigned) ((r >> 32) % (prefill + 1)));
			note(order_hash);
		}
		snprintf(where, sizeof(where), "random schedule %llu", (unsigned long long) n_runs);
	} else {
		sch_mode = 0;
		for (int first = 0; first < 2 && !bad[0]; first++) {
			uint64_t L = 0, at[8];
			sch_n = 0;
			schedule(first, rotate, prefill);
			n_runs++;
			note(order_hash);
			L = steps;
			for (int b = 1; b <= bound && !bad[0]; b++) {
				for (int i = 0; i < b; i++)
					at[i] = (uint64_t) i + 1;
				for (;;) {
					if (at[0] % parts == part) {
						memcpy(sch_at, at, sizeof(at));
						sch_n = b;
						schedule(first, rotate, prefill);
						n_runs++;
						note(order_hash);
						if (steps < 400 && steps > L)
							L = steps;
						if (bad[0]) {
							int k = snprintf(where, sizeof(where), "%s first, exchanged at accesses", first ? "consumer" : "producer");
							for (int i = 0; i < b; i++)
								k += snprintf(where + k, sizeof(where) - (size_t) k, " %llu", (unsigned long long) at[i]);
							break;
						}
					}
					int i = b - 1;
					while (i >= 0 && at[i] >= L - (uint64_t) (b - 1 - i))
						i--;
					if (i < 0)
						break;
					at[i]++;
					for (int j = i + 1; j < b; j++)
						at[j] = at[j - 1] + 1;
				}
			}
		}
	}
	out_str(bad);
	out_str(where);
	out_num(n_runs);
	out_num(set_n);
	out_num(o_switches);
	out_num(o_inside);
	out_num(o_forced);
	out_num(o_delayed);
	out_num(o_accept);
	out_num(o_full);
	out_num(o_remove);
	out_num(o_empty);
}
#endif

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_init(); break;
	case 2: op_seq(); break;
#ifdef VF_SCHED
	case 3: op_sched(); break;
#endif
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
