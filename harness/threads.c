/* The driver's operations from several threads at once, from the very first
 * call of the process; every thread's results are compared with those of the
 * same calls made one after the other afterwards.
 * usage: threads IN OUT PROGRESS NTHREADS MODE ROUNDS */
#define VF_THREADS 1
#define VF_NO_MAIN 1
#include <pthread.h>
static __thread int vf_thread;
#include "driver.c"

typedef struct { const uint8_t *p; uint32_t len; } case_t;
typedef struct { uint8_t *p; size_t len; } res_t;

static case_t *cases;
static uint32_t n_cases;
static int n_threads, mode, rounds;
static pthread_barrier_t bar;

static void load_case(uint32_t i, uint8_t *op)
{
	const uint8_t *c = cases[i].p, *ce = c + cases[i].len;
	*op = *c++;
	n_args = 0;
	while (c < ce) {
		uint32_t l;
		memcpy(&l, c, 4);
		c += 4;
		args[n_args].p = c;
		args[n_args].len = l;
		n_args++;
		c += l;
	}
}

static void one(uint32_t i, res_t *r)
{
	uint8_t op;
	load_case(i, &op);
	out_len = 0;
	live_blocks = 0;
	run_case(op);
	if (r->p == NULL) {
		r->p = malloc(out_len ? out_len : 1);
		memcpy(r->p, out_buf, out_len);
		r->len = out_len;
	} else if (r->len != out_len || memcmp(r->p, out_buf, out_len) != 0)
		r->len = (size_t) -1;		/* differs from an earlier round */
}

typedef struct { int id; uint32_t stride; res_t *res; } thr_t;

static uint32_t gcd(uint32_t a, uint32_t b) { while (b) { uint32_t c = a % b; a = b; b = c; } return a; }

static void *work(void *v)
{
	thr_t *t = v;
	vf_thread = t->id;
	pthread_barrier_wait(&bar);
	for (int k = 0; k < rounds; k++)
		for (uint32_t j = 0; j < n_cases; j++) {
			/* mode 0: all in step; 1: rotated; 2: opposite directions; 3: strides */
			uint32_t i = j;
			if (mode == 1) i = (uint32_t) (j + (uint64_t) t->id * n_cases / n_threads) % n_cases;
			else if (mode == 2 && (t->id & 1)) i = n_cases - 1 - j;
			else if (mode == 3) i = (uint32_t) (((uint64_t) j * t->stride) % n_cases);
			if (mode == 4)
				pthread_barrier_wait(&bar);	/* every call starts at once */
			one(i, &t->res[i]);
		}
	free(out_buf);
	return NULL;
}

int main(int argc, char **argv)
{
	if (argc < 7) return 92;
	n_threads = atoi(argv[4]); mode = atoi(argv[5]); rounds = atoi(argv[6]);
	struct stat st;
	int fd = open(argv[1], O_RDONLY);
	if (fd < 0 || fstat(fd, &st) != 0) return 93;
	size_t n = (size_t) st.st_size, pos = 0;
	uint8_t *in = malloc(n + 1);
	if (read(fd, in, n) != (ssize_t) n) return 93;
	close(fd);
	cases = malloc(sizeof(*cases) * (n / 5 + 1));
	while (pos + 4 <= n) {
		uint32_t tot;
		memcpy(&tot, in + pos, 4);
		cases[n_cases].p = in + pos + 4;
		cases[n_cases++].len = tot;
		pos += 4 + tot;
	}
	pthread_barrier_init(&bar, NULL, (unsigned) n_threads);
	thr_t *t = calloc((size_t) n_threads, sizeof(*t));
	pthread_t *p = calloc((size_t) n_threads, sizeof(*p));
	for (int i = 0; i < n_threads; i++) {
		t[i].id = i;
		t[i].stride = 2 * (uint32_t) i + 1;
		while (gcd(t[i].stride, n_cases) != 1) t[i].stride++;
		t[i].res = calloc(n_cases, sizeof(res_t));
		if (pthread_create(&p[i], NULL, work, &t[i]) != 0) return 96;
	}
	for (int i = 0; i < n_threads; i++)
		pthread_join(p[i], NULL);
	/* the same calls one after the other, twice: forwards and backwards */
	thr_t ref[2] = { { .id = 0 }, { .id = 0 } };
	for (int k = 0; k < 2; k++) {
		ref[k].res = calloc(n_cases, sizeof(res_t));
		for (uint32_t j = 0; j < n_cases; j++) {
			uint32_t i = k ? n_cases - 1 - j : j;
			one(i, &ref[k].res[i]);
		}
	}
	FILE *o = fopen(argv[2], "w");
	if (o == NULL) return 93;
	for (uint32_t i = 0; i < n_cases; i++) {
		res_t *a = &ref[0].res[i], *b = &ref[1].res[i];
		int who = a->len != b->len || memcmp(a->p, b->p, a->len) != 0 ? 1000 : -1;
		for (int k = 0; k < n_threads && who < 0; k++) {
			b = &t[k].res[i];
			if (a->len != b->len || memcmp(a->p, b->p, a->len) != 0)
				who = k;
		}
		fprintf(o, "%d %zu\n", who, a->len);
	}
	fclose(o);
	return 0;
}
