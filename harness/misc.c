/* Time arithmetic, atomic counters and thread numbers of libmy. */
#include "proto.h"

#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

/* nanosleep() as scripted by the case */
static int vf_nanosleep(const struct timespec *, struct timespec *);
#define nanosleep vf_nanosleep
#include "libmy/my_time.h"
#undef nanosleep

#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
#include "libmy/threadnum.h"

static struct timespec ts_arg(unsigned i)
{
	struct timespec t = { .tv_sec = (time_t) arg_num(i), .tv_nsec = (long) arg_num(i + 1) };
	return t;
}

static void out_ts(const struct timespec *t) { out_num((uint64_t) t->tv_sec); out_num((uint64_t) t->tv_nsec); }

/* 1: A B -> B + A, A */
static void op_add(void)
{
	struct timespec *a = malloc(sizeof *a), *b = malloc(sizeof *b);
	*a = ts_arg(0);
	*b = ts_arg(2);
	my_timespec_add(a, b);
	out_ts(b);
	out_ts(a);
	free(a);
	free(b);
}

/* 2: A B -> B - A, A */
static void op_sub(void)
{
	struct timespec *a = malloc(sizeof *a), *b = malloc(sizeof *b);
	*a = ts_arg(0);
	*b = ts_arg(2);
	my_timespec_sub(a, b);
	out_ts(b);
	out_ts(a);
	free(a);
	free(b);
}

/* 3: T -> double */
static void op_todouble(void)
{
	struct timespec a = ts_arg(0);
	double d = my_timespec_to_double(&a);
	out_bytes(&d, sizeof d);
}

/* 4: DOUBLE -> T */
static void op_fromdouble(void)
{
	double d;
	struct timespec t;
#ifndef VF_MSAN
	memset(&t, 0x5a, sizeof t);
#endif
	memcpy(&d, args[0].p, sizeof d);
	my_timespec_from_double(d, &t);
	out_ts(&t);
}

/* 5: T SCRIPT(u32 errno, u64 sec, u64 nsec each) -> the requests made */
static struct timespec asked[4096];
static unsigned n_asked;
static const uint8_t *script;
static unsigned n_script;

static int vf_nanosleep(const struct timespec *rq, struct timespec *rm)
{
	if (n_asked < 4096)
		asked[n_asked] = *rq;
	unsigned i = n_asked++;
	if (i > 4090) { fprintf(stderr, "harness: endless sleep\n"); abort(); }
	if (i < n_script) {
		uint32_t e;
		uint64_t s, ns;
		memcpy(&e, script + 20 * i, 4);
		memcpy(&s, script + 20 * i + 4, 8);
		memcpy(&ns, script + 20 * i + 12, 8);
		if (e == 0)
			return 0;
		if (e == EINTR && rm != NULL) {
			rm->tv_sec = (time_t) s;
			rm->tv_nsec = (long) ns;
		}
		errno = (int) e;
		return -1;
	}
	return 0;
}

static void op_sleep(void)
{
	struct timespec *t = malloc(sizeof *t);
	*t = ts_arg(0);
	script = args[2].p;
	n_script = args[2].len / 20;
	n_asked = 0;
	errno = (int) arg_num(3);
	my_nanosleep(t);
	out_ts(t);
	free(t);
	for (unsigned i = 0; i < n_asked; i++)
		out_ts(&asked[i]);
}

/* 6: clock -> before, my_gettime, after */
static void op_gettime(void)
{
	clockid_t c = (clockid_t) arg_num(0);
	struct timespec a, b, d;
	clock_gettime(c, &a);
	my_gettime(c, &b);
	clock_gettime(c, &d);
	out_ts(&a);
	out_ts(&b);
	out_ts(&d);
}

/* 7: WIDTH INIT OPS(u8 op, i64 operand each) -> after each: result, value */
enum { ADD, SUB, ZERO, SUBT, INC, DEC, DECT, INCT, ADDN, SET, READ, NOPS };

static int64_t do32(atomic_t *v, int op, int64_t x)
{
	switch (op) {
	case ADD: atomic_add((int) x, v); return 0;
	case SUB: atomic_sub((int) x, v); return 0;
	case ZERO: return atomic_zero(v);
	case SUBT: return !!atomic_sub_and_test((int) x, v);
	case INC: atomic_inc(v); return 0;
	case DEC: atomic_dec(v); return 0;
	case DECT: return !!atomic_dec_and_test(v);
	case INCT: return !!atomic_inc_and_test(v);
	case ADDN: return !!atomic_add_negative((int) x, v);
	case SET: atomic_set(v, (int) x); return 0;
	default: return atomic_read(v);
	}
}

static int64_t do64(atomic64_t *v, int op, int64_t x)
{
	switch (op) {
	case ADD: atomic64_add(x, v); return 0;
	case SUB: atomic64_sub(x, v); return 0;
	case ZERO: return atomic64_zero(v);
	case SUBT: return !!atomic64_sub_and_test(x, v);
	case INC: atomic64_inc(v); return 0;
	case DEC: atomic64_dec(v); return 0;
	case DECT: return !!atomic64_dec_and_test(v);
	case INCT: return !!atomic64_inc_and_test(v);
	case ADDN: return !!atomic64_add_negative(x, v);
	case SET: atomic64_set(v, x); return 0;
	default: return atomic64_read(v);
	}
}

static void op_atomseq(void)
{
	bool wide = arg_num(0) == 64;
	int64_t x = (int64_t) arg_num(1);
	/* each counter alone in its block */
	atomic_t *a = malloc(sizeof *a), i32 = ATOMIC_INIT((int) x);
	atomic64_t *b = malloc(sizeof *b), i64 = ATOMIC64_INIT(x);
	*a = i32;
	*b = i64;
	for (size_t i = 0; i + 9 <= args[2].len; i += 9) {
		memcpy(&x, args[2].p + i + 1, 8);
		int64_t r = wide ? do64(b, args[2].p[i], x) : do32(a, args[2].p[i], x);
		out_num((uint64_t) r);
		out_num((uint64_t) (wide ? b->counter : (int64_t) a->counter));
	}
	free(a);
	free(b);
}

/* 8: WIDTH THREADS ROUNDS SEED INIT SCENARIO -> results */
struct thr {
	pthread_t t;
	unsigned k, rounds, scenario;
	uint64_t seed;
	bool wide;
	int64_t delta, zeroed, yes;
	int num, num2;
	void *set, *last;
	unsigned n_set, foreign;
};
static atomic_t A32[3];
static atomic64_t A64[3];
static atomic_ptr_t AP;
static uint8_t ptr_room[64 * 64];
static int ready, go;

static uint64_t rnd(uint64_t *s)
{
	*s ^= *s << 13;
	*s ^= *s >> 7;
	*s ^= *s << 17;
	return *s;
}

static void start_line(void)
{
	__atomic_add_fetch(&ready, 1, __ATOMIC_ACQ_REL);
	while (!__atomic_load_n(&go, __ATOMIC_ACQUIRE))
		sched_yield();
}

static int64_t one(struct thr *t, unsigned c, int op, int64_t x)
{
	return t->wide ? do64(&A64[c], op, x) : do32(&A32[c], op, x);
}

static void *worker(void *arg)
{
	struct thr *t = arg;
	uint64_t s = t->seed | 1;

	start_line();
	for (unsigned i = 0; i < t->rounds; i++) {
		uint64_t r = rnd(&s);
		int64_t x = (int64_t) (r >> 32) % 1000 - 500;
		switch (t->scenario) {
		case 0: {	/* anything, on the first counter */
			static const int ops[] = { ADD, SUB, ZERO, SUBT, INC, DEC, DECT, INCT, ADDN };
			int op = ops[r % 9];
			int64_t res = one(t, 0, op, x);
			if (op == ZERO)
				t->zeroed += res;
			else
				t->delta += op == ADD || op == ADDN ? x : op == SUB || op == SUBT ? -x : op == INC || op == INCT ? 1 : -1;
			break;
		}
		case 1: t->yes += one(t, 0, DECT, 0); break;
		case 2: t->yes += one(t, 0, INCT, 0); break;
		case 3: t->yes += one(t, 0, SUBT, 3); break;
		case 4: t->yes += one(t, 0, ADDN, 1); break;
		case 5: {	/* references to objects: take one, give it back */
			one(t, 1, INC, 0);
			one(t, 1, r & 1 ? ADD : INC, 1);
			t->yes += one(t, 1, DECT, 0);
			t->yes += one(t, 1, SUBT, 1);
			break;
		}
		case 6: one(t, r % 3, r & 64 ? INC : ADD, 1); break;
		}
		if ((r & 0xf00) == 0)
			sched_yield();
	}
	return NULL;
}

static void run_threads(struct thr *t, unsigned n, void *(*f)(void *))
{
	ready = go = 0;
	for (unsigned i = 0; i < n; i++)
		if (pthread_create(&t[i].t, NULL, f, &t[i]) != 0) { fprintf(stderr, "harness: no thread\n"); _exit(90); }
	while (__atomic_load_n(&ready, __ATOMIC_ACQUIRE) < (int) n)
		sched_yield();
	__atomic_store_n(&go, 1, __ATOMIC_RELEASE);
	for (unsigned i = 0; i < n; i++)
		pthread_join(t[i].t, NULL);
}

static void op_atommt(void)
{
	struct thr t[16];
	unsigned n = (unsigned) arg_num(1);
	int64_t init = (int64_t) arg_num(4);

	memset(t, 0, sizeof t);
	if (n > 16)
		_exit(91);
	for (int i = 0; i < 3; i++) {
		atomic_set(&A32[i], (int) init);
		atomic64_set(&A64[i], init);
	}
	for (unsigned i = 0; i < n; i++) {
		t[i].k = i;
		t[i].wide = arg_num(0) == 64;
		t[i].rounds = (unsigned) arg_num(2);
		t[i].seed = arg_num(3) * 2654435761u + i * 0x9e3779b97f4a7c15ull;
		t[i].scenario = (unsigned) arg_num(5);
	}
	run_threads(t, n, worker);
	int64_t d = 0, z = 0, y = 0;
	for (unsigned i = 0; i < n; i++) {
		d += t[i].delta;
		z += t[i].zeroed;
		y += t[i].yes;
	}
	out_num((uint64_t) d);
	out_num((uint64_t) z);
	out_num((uint64_t) y);
	for (int i = 0; i < 3; i++)
		out_num((uint64_t) (t[0].wide ? A64[i].counter : (int64_t) A32[i].counter));
}

/* 9: THREADS ROUNDS -> the number each thread was given, twice; main's before and after */
static void *registrar(void *arg)
{
	struct thr *t = arg;
	start_line();
	my_threadnum_register();
	t->num = my_threadnum();
	for (unsigned i = 0; i < t->rounds; i++)
		sched_yield();
	t->num2 = my_threadnum();
	return NULL;
}

static void op_threadnum(void)
{
	struct thr t[16];
	unsigned n = (unsigned) arg_num(0);

	memset(t, 0, sizeof t);
	if (n > 16)
		_exit(91);
	for (unsigned i = 0; i < n; i++)
		t[i].rounds = (unsigned) arg_num(1) % (i + 3);
	int m = my_threadnum();
	run_threads(t, n, registrar);
	out_num((uint64_t) m);
	out_num((uint64_t) my_threadnum());
	for (unsigned i = 0; i < n; i++) {
		out_num((uint64_t) t[i].num);
		out_num((uint64_t) t[i].num2);
	}
}

/* 10: THREADS ROUNDS SEED -> the pointer at the end, and what each thread saw */
static void *setter(void *arg)
{
	struct thr *t = arg;
	uint64_t s = t->seed | 1;

	start_line();
	for (unsigned i = 0; i < t->rounds; i++) {
		uint8_t *p = ptr_room + 64 * (t->k + 1) + rnd(&s) % 64;
		if (atomic_ptr_set(&AP, p)) {
			t->n_set++;
			t->last = p;
		}
		uint8_t *g = atomic_ptr_get(&AP);
		if (g < ptr_room || g >= ptr_room + sizeof ptr_room)
			t->foreign++;
		if ((rnd(&s) & 0xf00) == 0)
			sched_yield();
	}
	return NULL;
}

static void op_ptr(void)
{
	struct thr t[16];
	unsigned n = (unsigned) arg_num(0);

	memset(t, 0, sizeof t);
	if (n > 16)
		_exit(91);
	AP.ptr = ptr_room;
	for (unsigned i = 0; i < n; i++) {
		t[i].k = i;
		t[i].rounds = (unsigned) arg_num(1);
		t[i].seed = arg_num(2) * 2654435761u + i * 0x9e3779b97f4a7c15ull;
	}
	run_threads(t, n, setter);
	out_num((uint64_t) ((uint8_t *) atomic_ptr_get(&AP) - ptr_room));
	for (unsigned i = 0; i < n; i++) {
		out_num(t[i].n_set);
		out_num(t[i].foreign);
		out_num(t[i].last ? (uint64_t) ((uint8_t *) t[i].last - ptr_room) : 0);
	}
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_add(); break;
	case 2: op_sub(); break;
	case 3: op_todouble(); break;
	case 4: op_fromdouble(); break;
	case 5: op_sleep(); break;
	case 6: op_gettime(); break;
	case 7: op_atomseq(); break;
	case 8: op_atommt(); break;
	case 9: op_threadnum(); break;
	case 10: op_ptr(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
