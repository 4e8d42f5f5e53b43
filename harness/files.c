/* libmy's file set, spool directory and rate limiter. */
#include "proto.h"
#include <dirent.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>

#include "libmy/my_fileset.h"
#include "libmy/spooldir.h"
#include "libmy/my_rate.h"

static const uint8_t *pc, *pe;
static uint8_t g8(void) { if (pc >= pe) { fprintf(stderr, "harness: short program\n"); _exit(91); } return *pc++; }
static uint32_t g32(void) { uint32_t v = g8(); v |= (uint32_t) g8() << 8; v |= (uint32_t) g8() << 16; v |= (uint32_t) g8() << 24; return v; }

static unsigned n_dirs;
static char top[64];

static void put(const char *path, const void *p, size_t n)
{
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, p, n) != (ssize_t) n || close(fd) != 0) { fprintf(stderr, "harness: cannot write %s\n", path); _exit(91); }
}

/* removes a directory made by this harness, one that lies below the current one */
static void empty_dir(const char *path)
{
	char b[1024];
	struct dirent *e;
	DIR *d = opendir(path);
	if (d == NULL || path[0] == '/' || strstr(path, "..") != NULL)
		return;
	while ((e = readdir(d)) != NULL) {
		if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
			continue;
		snprintf(b, sizeof(b), "%s/%s", path, e->d_name);
		if (unlink(b) != 0)
			empty_dir(b);
	}
	closedir(d);
	rmdir(path);
}

/* ---------------------------------------------------------------- file set */
static uint64_t token_serial;
struct token { uint64_t id; };
static int user_mark;
static char fs_prefix[80];

static void event(char what, const char *fname, uint64_t id)
{
	char c[2] = { what, 0 };
	size_t n = strlen(fs_prefix);
	out_str(c);
	out_str(strncmp(fname, fs_prefix, n) == 0 ? fname + n : "outside");
	out_num(id);
}

static void *fs_load(struct my_fileset *fs, const char *fname)
{
	struct token *t = malloc(sizeof(*t));
	t->id = ++token_serial;
	event('L', fname, my_fileset_user(fs) == &user_mark ? t->id : 0);
	return t;
}

static void fs_unload(struct my_fileset *fs, const char *fname, void *ptr)
{
	struct token *t = ptr;
	(void) fs;
	event('U', fname, t == NULL ? 0 : t->id);
	free(t);
}

/* f0..f127, and F0..F127 from 128 on */
static void fname_of(char *b, size_t z, const char *sub)
{
	uint8_t i = g8();
	snprintf(b, z, "%s/%s%c%u", top, sub, i & 128 ? 'F' : 'f', i & 127);
}

/* MODE PROGRAM: mode 1: no load function, 2: no unload function */
static void op_fileset(void)
{
	unsigned mode = (unsigned) arg_num(0);
	char b[600], set[128], tmp[128];
	struct my_fileset *fs = NULL;
	time_t stamp = 1000000000;
	struct token *kept[4096];
	size_t n_kept = 0;

	snprintf(top, sizeof(top), "fs%d-%u", (int) getpid(), n_dirs++);
	if (mkdir(top, 0700) != 0) { perror(top); _exit(91); }
	snprintf(fs_prefix, sizeof(fs_prefix), "%s/", top);
	snprintf(set, sizeof(set), "%s/set", top);
	snprintf(tmp, sizeof(tmp), "%s/set.new", top);
	snprintf(b, sizeof(b), "%s/sub", top);
	mkdir(b, 0700);
	token_serial = 0;
	pc = args[1].p;
	pe = pc + args[1].len;
	put(set, "", 0);
	live_blocks = 0;
	counting = true;
	while (pc < pe) {
		switch (g8()) {
		case 0: case 7: case 8: case 9: {	/* a new set file; 7: in place; 8: as old as the one before; 9: in place, older */
			bool in_place = pc[-1] == 7 || pc[-1] == 9, same = pc[-1] == 8, older = pc[-1] == 9;
			uint32_t n = g32();
			put(in_place ? set : tmp, pc, n);
			if (!same)
				stamp++;
			time_t when = older ? 1999999999 - stamp : stamp;
			struct timespec ts[2] = { { when, 0 }, { when, 0 } };
			if (!in_place)
				rmdir(set);
			utimensat(AT_FDCWD, in_place ? set : tmp, ts, 0);
			if (!in_place && rename(tmp, set) != 0) { perror("rename"); _exit(91); }
			pc += n;
			break;
		}
		case 1: fname_of(b, sizeof(b), ""); put(b, "x", 1); break;
		case 2: fname_of(b, sizeof(b), ""); unlink(b); break;
		case 12: {	/* b0, b1, ... */
			unsigned n = g8();
			n |= (unsigned) g8() << 8;
			for (unsigned i = 0; i < n; i++) {
				snprintf(b, sizeof(b), "%s/b%u", top, i);
				put(b, "x", 1);
			}
			break;
		}
		case 3: case 10: {	/* 10: with no descriptor left to open a file with */
			bool refuse = pc[-1] == 10;
			struct rlimit l, none;
			if (fs == NULL) {
				fs = my_fileset_init(set, mode & 1 ? NULL : fs_load, mode & 2 ? NULL : fs_unload, &user_mark);
			}
			if (refuse) {
				getrlimit(RLIMIT_NOFILE, &l);
				none = l;
				none.rlim_cur = 0;
				setrlimit(RLIMIT_NOFILE, &none);
			}
			my_fileset_reload(fs);
			if (refuse)
				setrlimit(RLIMIT_NOFILE, &l);
			out_str("R");
			break;
		}
		case 4: {
			const char *f;
			void *p;
			size_t i;
			out_str("G");
			if (fs != NULL) {
				for (i = 0; i < 4000 && my_fileset_get(fs, i, &f, &p); i++)
					event('E', f, p == NULL ? 0 : ((struct token *) p)->id);
				if (my_fileset_get(fs, i + 1, &f, &p) || my_fileset_get(fs, SIZE_MAX, &f, &p))
					out_str("beyond");
			}
			out_str("g");
			break;
		}
		case 5: if (unlink(set) != 0) rmdir(set); break;
		case 11: if (unlink(set) == 0) mkdir(set, 0700); break;	/* nothing but a directory */
		case 6: fname_of(b, sizeof(b), "sub/"); put(b, "x", 1); break;
		default: fprintf(stderr, "harness: bad op\n"); _exit(91);
		}
	}
	if (mode & 2 && fs != NULL) {	/* nobody else frees what is left at the end */
		const char *f;
		void *p;
		while (n_kept < 4096 && my_fileset_get(fs, n_kept, &f, &p))
			kept[n_kept++] = p;
	}
	my_fileset_destroy(&fs);
	out_str("D");
	out_num(fs == NULL);
	for (size_t i = 0; i < n_kept; i++)
		free(kept[i]);
	counting = false;
	out_num((uint64_t) live_blocks);
	empty_dir(top);
}

/* ---------------------------------------------------------- spool directory */
static atomic_uint n_usleep;
static unsigned usleep_mode;
int vf_usleep(useconds_t u)
{
	(void) u;
	atomic_fetch_add(&n_usleep, 1);
	if (usleep_mode == 1)
		sched_yield();
	else if (usleep_mode == 2) {
		struct timespec ts = { 0, 20000 };
		nanosleep(&ts, NULL);
	}
	return 0;
}

static char real_top[4200];

static void out_file(const char *path)
{
	uint8_t b[1000];
	int fd = open(path, O_RDONLY | O_NONBLOCK);
	if (fd < 0) { out_str("\xff<NONE>"); return; }
	ssize_t n = read(fd, b, sizeof(b));
	close(fd);
	out_bytes(b, n < 0 ? 0 : (size_t) n);
}

static bool sp_open;
static void list_dir(const char *sub)
{
	char b[1200];
	struct dirent *e;
	snprintf(b, sizeof(b), "%s/%s", top, sub);
	DIR *d = opendir(b);
	if (d == NULL) { out_str(sp_open ? "no directory" : "/"); return; }
	while ((e = readdir(d)) != NULL) {
		if (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)
			continue;
		struct stat st;
		snprintf(b, sizeof(b), "%s/%s/%s", top, sub, e->d_name);
		out_str(e->d_name);
		if (lstat(b, &st) == 0 && S_ISREG(st.st_mode))
			out_file(b);
		else
			out_str("\xff<DIR>");
	}
	closedir(d);
	out_str("/");
}

/* the name of a delivered path, when it is one in the active directory */
static const char *delivered(const char *p)
{
	size_t n = strlen(real_top);
	if (strncmp(p, real_top, n) != 0 || strncmp(p + n, "/active/", 8) != 0)
		return "\xff<ELSEWHERE>";
	return p + n + 8;
}

/* putting something into a directory the code was given can only fail so when the code took the directory away */
static void cannot_put(const char *b, bool started)
{
	int e = errno;
	perror(b);
	if (started && (e == ENOENT || e == ENOTDIR || e == EISDIR)) {
		fprintf(stderr, "MONITOR: the code moved the way of %s\n", b);
		abort();
	}
	_exit(91);
}

static void make_spool(unsigned have)
{
	char b[128];
	snprintf(top, sizeof(top), "sp%d-%u", (int) getpid(), n_dirs++);
	if (mkdir(top, 0700) != 0) { perror(top); _exit(91); }
	if (realpath(top, real_top) == NULL) { perror(top); _exit(91); }
	snprintf(b, sizeof(b), "%s/incoming", top);
	if (have & 1)
		mkdir(b, 0700);
	snprintf(b, sizeof(b), "%s/active", top);
	if (have & 2)
		mkdir(b, 0700);
}

/* NAME may hold anything a file name may */
static void gname(char *b, size_t z, const char *sub)
{
	unsigned n = g8();
	int k = snprintf(b, z, "%s/%s/", top, sub);
	for (unsigned i = 0; i < n; i++)
		b[k++] = (char) g8();
	b[k] = 0;
}

/* HAVE PROGRAM */
static void op_spool(void)
{
	char b[1200], t[128];
	make_spool((unsigned) arg_num(0));
	usleep_mode = 0;
	pc = args[1].p;
	pe = pc + args[1].len;
	snprintf(t, sizeof(t), "%s/tmp", top);
	struct spooldir *s = NULL;
	live_blocks = 0;
	counting = true;
	while (pc < pe) {
		uint8_t o = g8();
		switch (o) {
		case 0: case 3: {	/* a file in incoming, in active */
			gname(b, sizeof(b), o == 0 ? "incoming" : "active");
			uint32_t id = g32();
			put(t, &id, 4);
			if (rename(t, b) != 0) cannot_put(b, s != NULL);
			break;
		}
		case 2: case 5:		/* a directory in incoming, in active */
			gname(b, sizeof(b), o == 2 ? "incoming" : "active");
			mkdir(b, 0700);
			break;
		case 8:			/* what is neither file nor directory */
			gname(b, sizeof(b), "incoming");
			mkfifo(b, 0600);
			break;
		case 9:
			gname(b, sizeof(b), "incoming");
			if (symlink("nowhere", b) != 0) cannot_put(b, s != NULL);
			break;
		case 10:
			gname(b, sizeof(b), "incoming");
			if (symlink(".", b) != 0) cannot_put(b, s != NULL);
			break;
		case 4: {
			if (s == NULL)
				s = spooldir_init(top);
			char *r = spooldir_next(s);
			if (r == NULL) {
				out_str("\xff<NULL>");
			} else {
				out_str(delivered(r));
				out_file(r);
			}
			free(r);
			break;
		}
		case 6: sp_open = s != NULL; list_dir("incoming"); list_dir("active"); break;
		case 7: {	/* start over with the same directory */
			spooldir_destroy(&s);
			out_num(s == NULL);
			s = spooldir_init(top);
			break;
		}
		default: fprintf(stderr, "harness: bad op\n"); _exit(91);
		}
	}
	spooldir_destroy(&s);
	spooldir_destroy(&s);
	counting = false;
	out_num((uint64_t) live_blocks);
	empty_dir(top);
}

/* threads: CONSUMERS PRODUCERS FILES_EACH WAITING_AT_START MODE SEED */
static struct spooldir *sp;
static unsigned n_prod, n_each, n_start;
static atomic_uint produced, got_total;
static pthread_barrier_t bar;
struct got { char **p; size_t n, nulls; };

static void make_one(unsigned who, unsigned i)
{
	char t[128], b[128];
	uint32_t id = who * 100000 + i;
	snprintf(t, sizeof(t), "%s/tmp%u", top, who);
	snprintf(b, sizeof(b), "%s/incoming/m%u", top, id);
	put(t, &id, 4);
	if (rename(t, b) != 0) cannot_put(b, sp != NULL);
}

static void *producer(void *v)
{
	unsigned who = (unsigned) (uintptr_t) v;
	pthread_barrier_wait(&bar);
	for (unsigned i = 0; i < n_each; i++) {
		make_one(who + 1, i);
		atomic_fetch_add(&produced, 1);
		if (i % 7 == who)
			sched_yield();
	}
	return NULL;
}

static void *consumer(void *v)
{
	struct got *g = v;
	unsigned total = n_prod * n_each + n_start, idle = 0;
	pthread_barrier_wait(&bar);
	while (idle < 400) {
		char *r = spooldir_next(sp);
		if (r != NULL) {
			g->p[g->n++] = r;
			atomic_fetch_add(&got_total, 1);
			idle = 0;
			if (g->n >= total + 1000)
				break;
		} else {
			g->nulls++;
			if (atomic_load(&produced) == n_prod * n_each && atomic_load(&got_total) >= total) {
				if (++idle > 3)
					break;
			} else if (atomic_load(&produced) == n_prod * n_each)
				idle++;
		}
	}
	return NULL;
}

static void op_spool_threads(void)
{
	unsigned nc = (unsigned) arg_num(0);
	n_prod = (unsigned) arg_num(1);
	n_each = (unsigned) arg_num(2);
	n_start = (unsigned) arg_num(3);
	usleep_mode = (unsigned) arg_num(4);
	make_spool(3);
	for (unsigned i = 0; i < n_start; i++)
		make_one(0, i);
	sp = spooldir_init(top);
	atomic_store(&produced, 0);
	atomic_store(&got_total, 0);
	pthread_t t[16];
	struct got g[8];
	memset(g, 0, sizeof(g));
	pthread_barrier_init(&bar, NULL, nc + n_prod);
	for (unsigned i = 0; i < nc; i++) {
		g[i].p = malloc(sizeof(char *) * (n_prod * n_each + n_start + 1002));
		pthread_create(&t[i], NULL, consumer, &g[i]);
	}
	for (unsigned i = 0; i < n_prod; i++)
		pthread_create(&t[nc + i], NULL, producer, (void *) (uintptr_t) i);
	for (unsigned i = 0; i < nc + n_prod; i++)
		pthread_join(t[i], NULL);
	pthread_barrier_destroy(&bar);
	out_num(nc);
	for (unsigned i = 0; i < nc; i++) {
		out_num(g[i].n);
		out_num(g[i].nulls);
		for (size_t j = 0; j < g[i].n; j++) {
			out_str(delivered(g[i].p[j]));
			out_file(g[i].p[j]);
			free(g[i].p[j]);
		}
		free(g[i].p);
	}
	sp_open = true;
	list_dir("incoming");
	spooldir_destroy(&sp);
	empty_dir(top);
}

/* ------------------------------------------------------------ rate limiter */
static uint64_t now, cost, over, rr, sleeps, interrupts;
static uint64_t rnd(void) { rr ^= rr << 13; rr ^= rr >> 7; rr ^= rr << 17; return rr; }

int vf_clock_gettime(clockid_t c, struct timespec *ts)
{
	(void) c;
	now += cost;
	ts->tv_sec = (time_t) (now / 1000000000);
	ts->tv_nsec = (long) (now % 1000000000);
	return 0;
}
static void check_ts(const struct timespec *t)
{
	if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0)
		out_str("invalid time");
}
int vf_clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem)
{
	(void) c; (void) flags; (void) rem;
	check_ts(t);
	uint64_t til = (uint64_t) t->tv_sec * 1000000000 + (uint64_t) t->tv_nsec;
	sleeps++;
	if (til > now)
		now = til + (over ? rnd() % over : 0);
	return 0;
}
int vf_gettimeofday(struct timeval *tv, void *z)
{
	(void) z;
	now += cost;
	tv->tv_sec = (time_t) (now / 1000000000);
	tv->tv_usec = (suseconds_t) (now % 1000000000 / 1000);
	return 0;
}
int vf_nanosleep(const struct timespec *t, struct timespec *rem)
{
	check_ts(t);
	uint64_t d = (uint64_t) t->tv_sec * 1000000000 + (uint64_t) t->tv_nsec;
	sleeps++;
	if (interrupts && rnd() % interrupts == 0 && d > 1) {
		uint64_t part = rnd() % d;
		now += part;
		rem->tv_sec = (time_t) ((d - part) / 1000000000);
		rem->tv_nsec = (long) ((d - part) % 1000000000);
		errno = EINTR;
		return -1;
	}
	now += d + (over ? rnd() % over : 0);
	return 0;
}

struct my_rate *a_rate_init(unsigned, unsigned);
void a_rate_sleep(struct my_rate *);
void a_rate_destroy(struct my_rate **);
struct my_rate *b_rate_init(unsigned, unsigned);
void b_rate_sleep(struct my_rate *);
void b_rate_destroy(struct my_rate **);

/* VARIANT RATE FREQ START COST OVER INTERRUPTS SEED PHASES(count u32, work u64 ns, jitter u64 ns) -> return times */
static void op_rate(void)
{
	bool b = arg_num(0) != 0;
	struct my_rate *r;
	now = arg_num(3);
	cost = arg_num(4);
	over = arg_num(5);
	interrupts = arg_num(6);
	rr = arg_num(7) | 1;
	sleeps = 0;
	size_t at = 0, cap = 0;
	for (uint32_t i = 0; i + 20 <= args[8].len; i += 20) {
		uint32_t n;
		memcpy(&n, args[8].p + i, 4);
		cap += n;
	}
	uint64_t *t = malloc((cap + 1) * 8);
	counting = true;
	live_blocks = 0;
	r = b ? b_rate_init((unsigned) arg_num(1), (unsigned) arg_num(2)) : a_rate_init((unsigned) arg_num(1), (unsigned) arg_num(2));
	for (uint32_t i = 0; i + 20 <= args[8].len; i += 20) {
		uint32_t n;
		uint64_t work, jit;
		memcpy(&n, args[8].p + i, 4);
		memcpy(&work, args[8].p + i + 4, 8);
		memcpy(&jit, args[8].p + i + 12, 8);
		for (uint32_t k = 0; k < n; k++) {
			now += work + (jit ? rnd() % jit : 0);
			if (b)
				b_rate_sleep(r);
			else
				a_rate_sleep(r);
			t[at++] = now;
		}
	}
	if (b) {
		b_rate_sleep(NULL);
		b_rate_destroy(&r);
	} else {
		a_rate_sleep(NULL);
		a_rate_destroy(&r);
	}
	counting = false;
	out_num((uint64_t) live_blocks);
	out_num(r == NULL);
	out_num(sleeps);
	out_bytes(t, at * 8);
	free(t);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_fileset(); break;
	case 2: op_spool(); break;
	case 3: op_spool_threads(); break;
	case 4: op_rate(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
