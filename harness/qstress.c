/* Two real threads on one queue.  Case: VARIANT N SIZE COUNT SEED PACE BOUNDS */
#include "proto.h"
#include "libmy/my_queue.h"
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdarg.h>

extern const struct my_queue_ops vf_mutex_ops;
static const struct my_queue_ops direct_ops = {
	.init = my_queue_init, .destroy = my_queue_destroy, .impl_type = my_queue_impl_type,
	.insert = my_queue_insert, .remove = my_queue_remove,
};
static const struct my_queue_ops *qo;
static struct my_queue *q;
static unsigned n, z, pace;
static uint64_t total, seed;
static bool bounds;
static pthread_barrier_t bar;
static _Atomic uint64_t P, C, Pfly, Cfly;
static atomic_bool stop;
static char bad[2][300];
static uint64_t full, empty, switches;

static void violation(int s, const char *fmt, ...)
{
	va_list ap;
	if (bad[s][0])
		return;
	va_start(ap, fmt);
	vsnprintf(bad[s], sizeof(bad[s]), fmt, ap);
	va_end(ap);
	atomic_store(&stop, true);
}

static inline uint64_t word(uint64_t seq, unsigned j) { return (seq + 1) * 0x9e3779b97f4a7c15ULL + j * 0xbf58476d1ce4e5b9ULL; }
static void fill(uint8_t *p, uint64_t seq)
{
	for (unsigned j = 0; j < z; j += 8) {
		uint64_t w = word(seq, j);
		memcpy(p + j, &w, z - j < 8 ? z - j : 8);
	}
}
static bool intact(const uint8_t *p, uint64_t seq)
{
	for (unsigned j = 0; j < z; j += 8) {
		uint64_t w = word(seq, j);
		if (memcmp(p + j, &w, z - j < 8 ? z - j : 8) != 0)
			return false;
	}
	return true;
}

static void wait_a_little(uint64_t *r, int who)
{
	*r = *r * 6364136223846793005ULL + 1442695040888963407ULL;
	uint64_t x = *r >> 40;
	switch (pace) {
	case 0: break;
	case 1: if (x % 64 == 0) for (volatile unsigned i = 0; i < x % 400; i++) ; break;
	case 2: if (who == 0) for (volatile unsigned i = 0; i < 60; i++) ; break;
	case 3: if (who == 1) for (volatile unsigned i = 0; i < 60; i++) ; break;
	case 4: if (x % 512 == 0) sched_yield(); break;
	case 5: if (x % 4096 == 0) usleep(1); break;
	}
}

static void *producer(void *v)
{
	uint8_t *b = malloc(z ? z : 1);
	uint64_t p = 0, r = seed;
	int64_t cap = (int64_t) n - 1;
	pthread_barrier_wait(&bar);
	while (p < total && !atomic_load_explicit(&stop, memory_order_relaxed)) {
		unsigned x = 0xdeadbeef;
		fill(b, p);
		int64_t c0 = 0, c1 = 0;
		if (bounds) {
			c0 = (int64_t) atomic_load(&C);
			atomic_store(&Pfly, p + 1);
		}
		bool ok = qo->insert(q, b, r & 1 ? &x : NULL);
		bool sized = r & 1;
		if (ok)
			p++;
		if (bounds) {
			atomic_store(&P, p);
			c1 = (int64_t) atomic_load(&Cfly);
			if (ok && (int64_t) p - c1 > (int64_t) n)
				violation(0, "element %lld accepted when at most %lld were removed", (long long) p, (long long) c1);
			if (ok && sized && ((int64_t) x > cap - ((int64_t) p - c1) || (int64_t) x < cap - ((int64_t) p - c0)))
				violation(0, "space %u after insertion %lld with %lld to %lld removed", x, (long long) p, (long long) c0, (long long) c1);
			if (!ok && (int64_t) p - c0 < cap)
				violation(0, "insertion refused with %lld elements inside", (long long) p - (long long) c0);
		}
		if (!ok) {
			full++;
			if (sized && x != 0)
				violation(0, "space %u after a refused insertion", x);
			if (full % 256 == 0)
				sched_yield();
		}
		wait_a_little(&r, 0);
	}
	atomic_store(&P, p);
	free(b);
	return v;
}

static void *consumer(void *v)
{
	uint8_t *b = malloc(z ? z : 1);
	uint64_t c = 0, r = seed ^ 0x5555;
	bool last_empty = false;
	pthread_barrier_wait(&bar);
	while (c < total && !atomic_load_explicit(&stop, memory_order_relaxed)) {
		unsigned x = 0xdeadbeef;
		int64_t p0 = 0, p1 = 0;
		if (bounds) {
			p0 = (int64_t) atomic_load(&P);
			atomic_store(&Cfly, c + 1);
		}
		bool sized = r & 1;
		bool ok = qo->remove(q, b, sized ? &x : NULL);
		if (ok) {
			if (!intact(b, c))
				violation(1, "removal %llu is not element %llu intact", (unsigned long long) c + 1, (unsigned long long) c + 1);
			c++;
		}
		if (bounds) {
			atomic_store(&C, c);
			p1 = (int64_t) atomic_load(&Pfly);
			if (ok && (int64_t) c > p1)
				violation(1, "removal %llu although at most %lld were inserted", (unsigned long long) c, (long long) p1);
			if (ok && sized && ((int64_t) x > p1 - (int64_t) c || (int64_t) x < p0 - (int64_t) c))
				violation(1, "count %u after removal %llu with %lld to %lld inserted", x, (unsigned long long) c, (long long) p0, (long long) p1);
			if (!ok && p0 - (int64_t) c > 0)
				violation(1, "removal refused with %lld elements inside", (long long) p0 - (long long) c);
		}
		if (!ok) {
			empty++;
			if (sized && x != 0)
				violation(1, "count %u after a refused removal", x);
			if (empty % 256 == 0)
				sched_yield();
		}
		if (last_empty != !ok) {
			last_empty = !ok;
			switches++;
		}
		wait_a_little(&r, 1);
	}
	atomic_store(&C, c);
	free(b);
	return v;
}

static void run_case(uint8_t op)
{
	pthread_t t[2];
	(void) op;
	qo = arg_num(0) ? &vf_mutex_ops : &direct_ops;
	n = (unsigned) arg_num(1);
	z = (unsigned) arg_num(2);
	total = arg_num(3);
	seed = arg_num(4);
	pace = (unsigned) arg_num(5);
	bounds = arg_num(6);
	bad[0][0] = bad[1][0] = 0;
	full = empty = switches = 0;
	atomic_store(&P, 0); atomic_store(&C, 0); atomic_store(&Pfly, 0); atomic_store(&Cfly, 0);
	atomic_store(&stop, false);
	q = qo->init(n, z);
	pthread_barrier_init(&bar, NULL, 2);
	pthread_create(&t[0], NULL, producer, NULL);
	pthread_create(&t[1], NULL, consumer, NULL);
	pthread_join(t[0], NULL);
	pthread_join(t[1], NULL);
	pthread_barrier_destroy(&bar);
	out_str(bad[0]);
	out_str(bad[1]);
	out_num(atomic_load(&P));
	out_num(atomic_load(&C));
	uint8_t *b = malloc(z ? z : 1);
	out_num(qo->remove(q, b, NULL));
	free(b);
	qo->destroy(&q);
	out_num(full);
	out_num(empty);
	out_num(switches);
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
