/*
 * libmy's argument parser: one case is a table, a command line, files and
 * environment, the library's settings, and what is asked afterwards.
 */
#define _GNU_SOURCE 1
#include "proto.h"

#include <setjmp.h>
#include <sys/wait.h>

/* the parser leaves the program in interactive mode: it returns here instead */
static jmp_buf out_of_it;
static int exit_code;
static bool may_exit;

static void __attribute__((noreturn)) vf_exit(int code)
{
	if (!may_exit) {
		fprintf(stderr, "harness: exit(%d) outside of the parser\n", code);
		abort();
	}
	exit_code = code;
	longjmp(out_of_it, 1);
}

#define exit(c) vf_exit(c)
#ifdef VF_OOM_OF
# include "oom_off.h"
#endif
#include "libmy/argv.c"
#ifdef VF_OOM_OF
# include "oom_on.h"
#endif
#undef exit

static unsigned at;
static uint64_t next_num(void) { return arg_num(at++); }
/* text preceded by a flag octet: 0 for none */
static char *next_text(void)
{
	if (at >= n_args) { fprintf(stderr, "harness: bad case\n"); _exit(91); }
	arg_t a = args[at++];
	return a.len == 0 || a.p[0] == 0 ? NULL : (char *) dup_exact(a.p + 1, a.len - 1, true);
}

enum { S_CLOSE, S_TOGGLE, S_MULTI, S_ENV, S_AFTER, S_INTERACTIVE, S_STREAM, S_ERROR, S_USAGE, S_CODE, S_NOENV, S_TABLE, S_N };

#define MAXENT 80
static argv_t *table;
static unsigned n_ent;
static unsigned ent_size[MAXENT];		/* of one value */
static unsigned ent_type[MAXENT];
static char *deflt[MAXENT];

static void put_value(unsigned i, const void *p)
{
	if ((ent_type[i] & 0x3f) == ARGV_CHAR_P) {
		const char *s;
		memcpy(&s, p, sizeof s);
		out_str(s);
	} else
		out_bytes(p, ent_size[i]);
}

static void put_values(void)
{
	for (unsigned i = 0; i < n_ent; i++) {
		out_num(argv_entry_was_used(&table[i]) != 0);
		out_num(((table[i].ar_type ^ ent_type[i]) & (0x3f | ARGV_FLAG_ARRAY | ARGV_FLAG_MAND)) == 0);
		if (table[i].ar_variable == NULL)
			out_num(0);
		else if (ent_type[i] & ARGV_FLAG_ARRAY) {
			argv_array_t *a = table[i].ar_variable;
			out_num((uint64_t) a->aa_entry_n);
			for (int k = 0; k < a->aa_entry_n; k++)
				put_value(i, (char *) a->aa_entries + (size_t) k * ent_size[i]);
		} else {
			out_num(1);
			put_value(i, table[i].ar_variable);
		}
	}
}

/* What the parser prints, kept without an allocation of the stream's own. */
static char text[1 << 17], stream_buf[8192];
static size_t text_len;
static FILE *stream;

static ssize_t keep_text(void *cookie, const char *b, size_t n)
{
	(void) cookie;
	size_t m = n < sizeof text - text_len ? n : sizeof text - text_len;
	memcpy(text + text_len, b, m);
	text_len += m;
	return (ssize_t) n;
}

static void put_text(void)
{
	if (stream == NULL) {
		out_bytes(NULL, 0);
		return;
	}
	fflush(stream);
	out_bytes(text, text_len);
	text_len = 0;
}

static void parse(const uint8_t *set, int argc, char **av)
{
	volatile int rc = 0;

	exit_code = -1;
	may_exit = true;
	if (setjmp(out_of_it) == 0) {
		argv_t *t = set[S_TABLE] ? NULL : table;
		rc = set[S_NOENV] ? argv_process_no_env(t, argc, av) : argv_process(t, argc, av);
	}
	may_exit = false;
#ifdef VF_OOM_OF
	if (child && failed && exit_code >= 0)	/* what it leaves is not looked at */
		_exit(exit_code > 0 ? E_STOPPED : E_SUCCESS);
#endif
	out_num((uint64_t) (int64_t) rc);
	out_num((uint64_t) (int64_t) exit_code);
	out_num(argv_argv == av && argv_argc == argc);
	out_str(argv_program);
	put_text();
	put_values();
}

static void op_argv(void)
{
	at = 0;
	if (n_args < 1 || args[0].len != S_N)
		_exit(91);
	const uint8_t *set = args[at++].p;
	char *env_name = next_text(), *env = next_text();
	unsigned n_file = (unsigned) next_num();
	for (unsigned i = 0; i < n_file; i++) {
		char nm[16];
		snprintf(nm, sizeof nm, "f%u", i);
		FILE *f = fopen(nm, "w");
		if (f == NULL || fwrite(args[at].p, 1, args[at].len, f) != args[at].len || fclose(f) != 0)
			_exit(95);
		at++;
	}
	int fd0 = dup(0);	/* the lowest free descriptor, before and after */
	close(fd0);
	int argc = (int) next_num();
	char **av = malloc(((size_t) argc + 1) * sizeof *av), **keep = malloc(((size_t) argc + 1) * sizeof *keep);
	for (int i = 0; i < argc; i++) {
		av[i] = next_text();
		keep[i] = av[i] == NULL ? NULL : strdup(av[i]);
	}
	av[argc] = NULL;
	keep[argc] = NULL;

	n_ent = (unsigned) next_num();
	if (n_ent > MAXENT)
		_exit(91);
	table = malloc((n_ent + 1) * sizeof *table);
	memset(table, 0, (n_ent + 1) * sizeof *table);
	for (unsigned i = 0; i < n_ent; i++) {
		argv_t *e = &table[i];
		e->ar_short_arg = (char) next_num();
		e->ar_long_arg = next_text();
		e->ar_type = ent_type[i] = (unsigned) next_num();
		ent_size[i] = (unsigned) next_num();
		bool var = next_num() != 0;
		e->ar_var_label = next_text();
		e->ar_comment = next_text();
		arg_t init = args[at++];
		deflt[i] = NULL;
		if (!var)
			continue;
		if (ent_type[i] & ARGV_FLAG_ARRAY) {
			e->ar_variable = calloc(1, sizeof(argv_array_t));
		} else if ((ent_type[i] & 0x3f) == ARGV_CHAR_P) {
			if (init.len && init.p[0])
				deflt[i] = (char *) dup_exact(init.p + 1, init.len - 1, true);
			e->ar_variable = malloc(sizeof(char *));
			memcpy(e->ar_variable, &deflt[i], sizeof(char *));
		} else
			e->ar_variable = dup_exact(init.p, init.len, false);
	}
	table[n_ent].ar_short_arg = ARGV_LAST;

	argv_close_enable_b = set[S_CLOSE];
	argv_last_toggle_b = set[S_TOGGLE];
	argv_multi_accept_b = set[S_MULTI];
	argv_process_env_b = set[S_ENV];
	argv_env_after_b = set[S_AFTER];
	argv_interactive = set[S_INTERACTIVE];
	argv_error_type = set[S_ERROR];
	argv_usage_type = set[S_USAGE];
	argv_error_code = set[S_CODE];
	text_len = 0;
	stream = NULL;
	if (set[S_STREAM] == 0)
		argv_error_stream = NULL;
	else if (set[S_STREAM] == 1) {
		cookie_io_functions_t io = { NULL, keep_text, NULL, NULL };
		argv_error_stream = stream = fopencookie(NULL, "w", io);
		if (stream == NULL)
			_exit(95);
		setvbuf(stream, stream_buf, _IOFBF, sizeof stream_buf);
	}
	/* otherwise: as the library has it */
	if (env_name != NULL && env != NULL)
		setenv(env_name, env, 1);

	live_blocks = 0;
	counting = true;
	if (set[S_TABLE] == 2) {	/* not parsed at all: the table in its first state */
		put_values();
	} else
		parse(set, argc, av);
	counting = false;

	while (at < n_args) {
		unsigned kind = (unsigned) next_num();
		counting = true;
		if (kind == 1) {		/* entry, size */
			unsigned i = (unsigned) next_num(), n = (unsigned) next_num();
			counting = false;
			char *b = malloc(n);
			counting = true;
			memset(b, 0x5a, n);
#ifdef VF_MSAN
			__msan_poison(b, n);
#endif
			int r = argv_value_string(&table[i], b, (int) n);
			counting = false;
			out_num((uint64_t) (int64_t) r);
			out_bytes(b, strnlen(b, n));
			free(b);
		} else if (kind == 2) {		/* size */
			unsigned n = (unsigned) next_num();
			counting = false;
			char *b = malloc(n);
			counting = true;
			memset(b, 0x5a, n);
#ifdef VF_MSAN
			__msan_poison(b, n);
#endif
			int r = argv_copy_args(b, (int) n);
			counting = false;
			out_num((uint64_t) (int64_t) r);
			out_bytes(b, n ? strnlen(b, n) : 0);
			free(b);
		} else if (kind == 3)		/* short */
			out_num((uint64_t) argv_was_used(table, (char) next_num()));
		else if (kind == 4) {		/* long */
			counting = false;
			char *s = next_text();
			counting = true;
			out_num((uint64_t) argv_long_was_used(table, s));
			counting = false;
			free(s);
		} else if (kind == 5) {		/* which */
			out_num((uint64_t) (int64_t) argv_usage(set[S_TABLE] == 1 ? NULL : table, (int) next_num()));
			counting = false;
			put_text();
		} else if (kind == 6) {		/* type */
			unsigned sz = 12345;
			const char *desc = NULL;
			const char *nm = argv_type_info((unsigned) next_num(), &sz, &desc);
			out_str(nm);
			out_num(sz);
			out_str(desc);
		} else if (kind == 7) {		/* clean up, and once more */
			argv_cleanup(table);
			put_values();
			out_num((uint64_t) live_blocks);
			parse(set, argc, av);
		} else
			_exit(91);
		counting = false;
	}
	counting = true;
	argv_cleanup(set[S_TABLE] == 1 ? NULL : table);
	argv_cleanup(set[S_TABLE] == 1 ? NULL : table);	/* nothing is left to free */
	counting = false;
	out_num((uint64_t) live_blocks);
	put_values();
	bool same = true;
	for (int i = 0; i <= argc; i++)
		if ((av[i] == NULL) != (keep[i] == NULL) || (av[i] != NULL && strcmp(av[i], keep[i]) != 0))
			same = false;
	out_num(same);
	int fd1 = dup(0);
	close(fd1);
	out_num(fd0 == fd1);

	if (env_name != NULL)
		unsetenv(env_name);
	if (stream != NULL)
		fclose(stream);
	argv_error_stream = NULL;
	argv_argv = NULL;
	argv_argc = 0;
	for (unsigned i = 0; i < n_ent; i++) {
		free((char *) table[i].ar_long_arg);
		free((char *) table[i].ar_var_label);
		free((char *) table[i].ar_comment);
		free(table[i].ar_variable);
		free(deflt[i]);
	}
	free(table);
	for (int i = 0; i < argc; i++) {
		free(av[i]);
		free(keep[i]);
	}
	free(av);
	free(keep);
	free(env_name);
	free(env);
	for (unsigned i = 0; i < n_file; i++) {
		char nm[16];
		snprintf(nm, sizeof nm, "f%u", i);
		unlink(nm);
	}
}

/* The first use in a process: the settings come from GLOBAL_ARGV (last
 * argument), the stream may be the one the library starts with.  */
static void op_fresh(void)
{
	int fd[2], st = 0;
	if (pipe(fd) != 0)
		_exit(95);
	pid_t pid = fork();
	if (pid < 0)
		_exit(95);
	if (pid == 0) {
		close(fd[0]);
		at = --n_args;
		n_args++;
		char *g = next_text();
		n_args--;
		if (g != NULL)
			setenv("GLOBAL_ARGV", g, 1);
		size_t from = out_len;
		op_argv();
		while (from < out_len) {
			ssize_t r = write(fd[1], out_buf + from, out_len - from);
			if (r <= 0)
				_exit(95);
			from += (size_t) r;
		}
		_exit(0);
	}
	close(fd[1]);
	char b[4096];
	ssize_t r;
	while ((r = read(fd[0], b, sizeof b)) > 0)
		out_raw(b, (size_t) r);
	close(fd[0]);
	waitpid(pid, &st, 0);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		_exit(WIFEXITED(st) ? WEXITSTATUS(st) : 77);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_argv(); break;
	case 2: op_fresh(); break;
	default: fprintf(stderr, "harness: bad op\n"); _exit(91);
	}
}

static void no_input(void)
{
	static char b[4096];
	if (freopen("/dev/null", "r", stdin) == NULL)	/* --argv-file=- finds nothing there */
		_exit(95);
	setvbuf(stdin, b, _IOFBF, sizeof b);
}

#ifdef VF_OOM_OF
#define VF_INIT no_input
#else
int main(int argc, char **argv)
{
	no_input();
	return proto_main(argc, argv);
}
#endif
