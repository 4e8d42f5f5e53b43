/*
 * The driver's operations with allocations of the library failing: each case
 * is run once without a failure and then, in a child process for each, with
 * the k-th allocation (or it and all later ones) refused.
 */
#define _GNU_SOURCE 1
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/wait.h>

/* the harness's own allocations do not fail */
extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t);
extern char *__real_strdup(const char *), *__real_strndup(const char *, size_t);
extern void __real_abort(void) __attribute__((noreturn));
#undef strdup
#undef strndup
#include "oom_on.h"
#define VF_NO_MAIN 1
#include "proto.h"
static bool failed, child;
enum { E_DONE = 0, E_STOPPED = 10, E_NOT_REACHED = 11, E_SUCCESS = 12 };
#define run_case plain_case
#include VF_OOM_OF
#undef run_case

static unsigned n_alloc, fail_at;
static bool for_good;

static bool refuse(void)
{
	n_alloc++;
	if (fail_at == 0 || n_alloc < fail_at || (n_alloc > fail_at && !for_good))
		return false;
	failed = true;
	errno = ENOMEM;
	return true;
}

void *__wrap_malloc(size_t n) { return refuse() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t m, size_t n) { return refuse() ? NULL : __real_calloc(m, n); }
void *__wrap_realloc(void *p, size_t n) { return n != 0 && refuse() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return refuse() ? NULL : __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return refuse() ? NULL : __real_strndup(s, n); }

/* the library gives up: what an assertion is for */
void __wrap_abort(void)
{
	if (child && failed)
		_exit(E_STOPPED);
	__real_abort();
}

void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn)
{
	if (child && failed)
		_exit(E_STOPPED);
	fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, e);
	__real_abort();
}

#define SHARED (8u << 20)
static uint8_t *shared;

/* args: op, for good, number of places, number to choose them by, then the operation's own */
static void run_case(uint8_t op)
{
	(void) op;
	uint8_t in = (uint8_t) arg_num(0);
	for_good = arg_num(1) != 0;
	unsigned most = (unsigned) arg_num(2), pick = (unsigned) arg_num(3);
	n_args -= 4;
	memmove(args, args + 4, n_args * sizeof args[0]);
	if (shared == NULL)
		shared = mmap(NULL, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

	size_t from = out_len;
	fail_at = 0;
	n_alloc = 0;
	plain_case(in);
	unsigned n = n_alloc;
	size_t len = out_len - from;
	uint8_t *want = __real_malloc(len + 1);
	memcpy(want, out_buf + from, len);
	out_len = from;
	out_bytes(want, len);
	out_num(n);

	unsigned step = n <= most ? 1 : n / most, at = n <= most ? 1 : 1 + pick % step;
	for (; at <= n; at += step) {
		uint32_t got = UINT32_MAX;
		memcpy(shared, &got, 4);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); _exit(95); }
		if (pid == 0) {
			child = true;
			failed = false;
			out_len = 0;
			live_blocks = 0;
			n_alloc = 0;
			fail_at = at;
			alarm(20);
			plain_case(in);
			if (!failed)
				_exit(E_NOT_REACHED);
			if (out_len + 4 <= SHARED) {
				got = (uint32_t) out_len;
				memcpy(shared + 4, out_buf, out_len);
				memcpy(shared, &got, 4);
			}
			_exit(E_DONE);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		int e = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
		if (e != E_DONE && e != E_STOPPED && e != E_NOT_REACHED && e != E_SUCCESS) {
			fprintf(stderr, "harness: allocation %u of %u refused%s\n", at, n, for_good ? ", and all later ones" : "");
			_exit(77);
		}
		memcpy(&got, shared, 4);
		if (e == E_DONE && got == len && memcmp(shared + 4, want, len) == 0)
			e = 1;		/* as without the failure */
		out_num(at);
		out_num((uint64_t) e);
		if (e == E_DONE)
			out_bytes(shared + 4, got == UINT32_MAX ? 0 : got);
	}
	free(want);
}

int main(int argc, char **argv)
{
#ifdef VF_INIT
	VF_INIT();
#endif
	return proto_main(argc, argv);
}
