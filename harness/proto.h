/*
 * Batch protocol shared by every harness: a file of cases in, a file of
 * results out.  Case: u32 total, u8 op, then arguments; argument: u32 len,
 * bytes.  Result: u32 total, then fields in the same form.  The index of the
 * case being executed is kept in a shared mapping so that a crash, a sanitizer
 * report or a hang can be attributed to one case.
 */
#ifndef VF_PROTO_H
#define VF_PROTO_H

#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#define MAXARGS 66000
#ifdef VF_THREADS
# define VF_TLS __thread
#else
# define VF_TLS
#endif
typedef struct { const uint8_t *p; uint32_t len; } arg_t;

static VF_TLS arg_t args[MAXARGS];
static VF_TLS unsigned n_args;

/* ------------------------------------------------------------------ output */
static VF_TLS uint8_t *out_buf;
static VF_TLS size_t out_len, out_cap;

static void out_reserve(size_t n)
{
	if (out_len + n > out_cap) {
		while (out_len + n > out_cap)
			out_cap = out_cap ? out_cap * 2 : (1u << 22);
		out_buf = realloc(out_buf, out_cap);
		if (out_buf == NULL) { fprintf(stderr, "harness: no memory\n"); _exit(90); }
	}
}

static void out_raw(const void *p, size_t n)
{
	out_reserve(n);
	if (n)
		memcpy(out_buf + out_len, p, n);
	out_len += n;
}

static void out_bytes(const void *p, size_t n)
{
	uint32_t l = (uint32_t) n;
	out_raw(&l, 4);
	out_raw(p, n);
}

static void __attribute__((unused)) out_str(const char *s)
{
	if (s == NULL)
		out_bytes("\xff<NULL>", 7);
	else
		out_bytes(s, strlen(s));
}

static void __attribute__((unused)) out_num(uint64_t v) { out_bytes(&v, 8); }

/* ------------------------------------------------- allocation accounting */
#if defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VF_ASAN 1
# endif
# if __has_feature(memory_sanitizer)
#  define VF_MSAN 1
# endif
#endif
#ifdef __SANITIZE_ADDRESS__
# define VF_ASAN 1
#endif

static VF_TLS long live_blocks;
static VF_TLS bool counting;

#if defined(VF_ASAN) || defined(VF_MSAN)
extern int __sanitizer_install_malloc_and_free_hooks(
	void (*malloc_hook)(const volatile void *, size_t),
	void (*free_hook)(const volatile void *));
static void mh(const volatile void *p, size_t n) { (void) n; if (p && counting) live_blocks++; }
static void fh(const volatile void *p) { if (p && counting) live_blocks--; }
static void install_hooks(void) { __sanitizer_install_malloc_and_free_hooks(mh, fh); }
#else
static void install_hooks(void) {}
#endif

#if defined(VF_FUZZ) && !defined(VF_NO_MAIN)
# define VF_NO_MAIN 1
#endif
#ifdef VF_MSAN
#include <sanitizer/msan_interface.h>
#endif

void __asan_poison_memory_region(void const volatile *, size_t);

/* An exact-size heap copy: the red zones start at its very first and last
 * byte.  nul: append a terminator.  */
static uint8_t *dup_exact(const uint8_t *p, size_t len, bool nul)
{
	uint8_t *q = malloc(len + (nul ? 1 : 0));
	if (q == NULL) { fprintf(stderr, "harness: no memory\n"); _exit(90); }
	if (len)
		memcpy(q, p, len);
	if (nul)
		q[len] = 0;
#ifdef __SANITIZE_ADDRESS__
# define VF_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define VF_ASAN 1
# endif
#endif
#ifdef VF_ASAN
	if (len == 0 && !nul)
		__asan_poison_memory_region(q, 1);	/* even malloc(0) gives one octet */
#endif
	return q;
}

static uint64_t __attribute__((unused)) arg_num(unsigned i)
{
	uint64_t v = 0;
	if (i >= n_args || args[i].len > 8) { fprintf(stderr, "harness: bad arg %u\n", i); _exit(91); }
	memcpy(&v, args[i].p, args[i].len);
	return v;
}

static volatile uint32_t *progress;

static void run_case(uint8_t op);

static int __attribute__((unused)) proto_main(int argc, char **argv)
{
	if (argc < 4) { fprintf(stderr, "usage: harness IN OUT PROGRESS [START [COUNT]]\n"); return 92; }
	uint32_t start = argc > 4 ? (uint32_t) strtoul(argv[4], NULL, 10) : 0;
	uint32_t count = argc > 5 ? (uint32_t) strtoul(argv[5], NULL, 10) : UINT32_MAX;
	struct stat st;
	int fd = open(argv[1], O_RDONLY);
	if (fd < 0 || fstat(fd, &st) != 0) { perror(argv[1]); return 93; }
	uint8_t *in = malloc((size_t) st.st_size + 1);
	size_t in_len = 0;
	while (in_len < (size_t) st.st_size) {
		ssize_t r = read(fd, in + in_len, (size_t) st.st_size - in_len);
		if (r <= 0) { perror("read"); return 93; }
		in_len += (size_t) r;
	}
	close(fd);
	int ofd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
	int pfd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (ofd < 0 || pfd < 0 || ftruncate(pfd, 4096) != 0) { perror("open"); return 93; }
	progress = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0);
	if (progress == MAP_FAILED) { perror("mmap"); return 93; }
	progress[0] = 0; progress[1] = 0;

	install_hooks();
	out_reserve(1u << 22);

	size_t pos = 0;
	uint32_t idx = 0;
	while (pos + 4 <= in_len) {
		uint32_t tot;
		memcpy(&tot, in + pos, 4);
		pos += 4;
		if (pos + tot > in_len) { fprintf(stderr, "harness: bad case file\n"); return 94; }
		if (idx >= start && idx - start < count) {
			const uint8_t *c = in + pos, *ce = c + tot;
			uint8_t op = *c++;
			n_args = 0;
			while (c < ce) {
				uint32_t l;
				if (n_args >= MAXARGS) { fprintf(stderr, "harness: too many args\n"); return 94; }
				memcpy(&l, c, 4);
				c += 4;
				args[n_args].p = c;
				args[n_args].len = l;
				n_args++;
				c += l;
			}
			progress[0] = idx + 1;	/* case under way */
			size_t hdr = out_len;
			uint32_t z = 0;
			out_raw(&z, 4);
			live_blocks = 0;
			run_case(op);
			uint32_t l = (uint32_t) (out_len - hdr - 4);
			memcpy(out_buf + hdr, &l, 4);
#ifdef VF_MSAN
			__msan_check_mem_is_initialized(out_buf + hdr, out_len - hdr);
#endif
			if (out_len > (1u << 21) || (argc > 6)) {
				size_t w = 0;
				while (w < out_len) {
					ssize_t r = write(ofd, out_buf + w, out_len - w);
					if (r <= 0) { perror("write"); return 95; }
					w += (size_t) r;
				}
				out_len = 0;
				progress[1] = idx + 1;	/* results on disk up to here */
			}
		}
		pos += tot;
		idx++;
	}
	size_t w = 0;
	while (w < out_len) {
		ssize_t r = write(ofd, out_buf + w, out_len - w);
		if (r <= 0) { perror("write"); return 95; }
		w += (size_t) r;
	}
	progress[1] = idx;
	close(ofd);
	free(in);
	free(out_buf);
	return 0;
}
#include "fuzz.h"
#endif
