/* The zone file reader of libmy over a stand-in for libldns. */
#include "proto.h"
#include <dirent.h>
#include <ctype.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "libmy/zonefile.h"

#define BEGIN() do { counting = true; } while (0)
#define END() do { counting = false; } while (0)

/* ------------------------------------------------ the stand-in for libldns */
static long objects;		/* rdfs and rrs alive */
static unsigned at_end;		/* reads tried at the end of a stream, in a row */

static ldns_rdf *rdf_new(const void *p, size_t n)
{
	ldns_rdf *d = malloc(sizeof *d);
	d->size = n;
	d->data = malloc(n + 1);
	memcpy(d->data, p, n);
	d->data[n] = 0;
	objects++;
	return d;
}
ldns_rdf *ldns_rdf_clone(const ldns_rdf *d) { return d == NULL ? NULL : rdf_new(d->data, d->size); }
void ldns_rdf_deep_free(ldns_rdf *d) { if (d) { free(d->data); free(d); objects--; } }
void ldns_rdf_free(ldns_rdf *d) { if (d) { free(d); objects--; } }
size_t ldns_rdf_size(const ldns_rdf *d) { return d->size; }
uint8_t *ldns_rdf_data(const ldns_rdf *d) { return d->data; }
int ldns_rdf_compare(const ldns_rdf *a, const ldns_rdf *b)
{
	int c = memcmp(a->data, b->data, a->size < b->size ? a->size : b->size);
	return c ? c : a->size < b->size ? -1 : a->size > b->size;
}
int ldns_dname_compare(const ldns_rdf *a, const ldns_rdf *b) { return ldns_rdf_compare(a, b); }
uint32_t ldns_rdf2native_int32(const ldns_rdf *d)
{
	if (d->size != 4)
		return 0;
	return (uint32_t) d->data[0] << 24 | (uint32_t) d->data[1] << 16 | (uint32_t) d->data[2] << 8 | d->data[3];
}
ldns_rdf *ldns_rr_owner(const ldns_rr *r) { return r->owner; }
ldns_rr_type ldns_rr_get_type(const ldns_rr *r) { return r->type; }
ldns_rr_class ldns_rr_get_class(const ldns_rr *r) { (void) r; return LDNS_RR_CLASS_IN; }
uint32_t ldns_rr_ttl(const ldns_rr *r) { return r->ttl; }
size_t ldns_rr_rd_count(const ldns_rr *r) { return r->n; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *r, size_t i) { return i < r->n ? r->f[i] : NULL; }
void ldns_rr_free(ldns_rr *r)
{
	if (r == NULL)
		return;
	ldns_rdf_deep_free(r->owner);
	for (size_t i = 0; i < r->n; i++)
		ldns_rdf_deep_free(r->f[i]);
	free(r);
	objects--;
}
ldns_rr *ldns_rr_clone(const ldns_rr *r)
{
	ldns_rr *c;
	if (r == NULL)
		return NULL;
	c = malloc(sizeof *c);
	*c = *r;
	c->owner = ldns_rdf_clone(r->owner);
	for (size_t i = 0; i < r->n; i++)
		c->f[i] = ldns_rdf_clone(r->f[i]);
	objects++;
	return c;
}
const char *ldns_get_errorstr_by_id(ldns_status s) { (void) s; return "error"; }

/* a name as in a zone file, relative to the origin */
static ldns_rdf *dname(const char *s, const ldns_rdf *origin)
{
	char b[600];
	const char *o = origin ? (const char *) origin->data : ".";
	size_t n = strlen(s);
	if (strcmp(s, "@") == 0)
		return rdf_new(o, strlen(o));
	if (n > 250)
		return NULL;
	if (s[n - 1] == '.')
		return rdf_new(s, n);
	snprintf(b, sizeof b, "%s.%s", s, strcmp(o, ".") ? o : "");
	return strlen(b) > 255 ? NULL : rdf_new(b, strlen(b));
}

static bool number(const char *s, uint32_t *v)
{
	char *e;
	unsigned long long x;
	if (!isdigit((unsigned char) *s) || strlen(s) > 10)
		return false;
	x = strtoull(s, &e, 10);
	*v = (uint32_t) x;
	return *e == 0 && x <= UINT32_MAX;
}

ldns_status ldns_rr_new_frm_fp_l(ldns_rr **out, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr)
{
	char line[4096], *tok[12], *p, *sv = NULL;
	size_t n = 0, k = 0, i;
	int c;
	ldns_rr *r;
	const ldns_rdf *org = origin ? *origin : NULL;
	uint32_t v;

	while ((c = getc(fp)) != EOF && c != '\n')
		if (n < sizeof line - 1)
			line[n++] = (char) c;
	line[n] = 0;
	if (c == '\n' && line_nr)
		++*line_nr;
	if (c == EOF && n == 0) {
		if (++at_end > 3000) {
			fprintf(stderr, "VF-HANG: the reader goes on at the end of the file\n");
			abort();
		}
	} else
		at_end = 0;
	if ((p = strchr(line, ';')) != NULL)
		*p = 0;
	if (line[strspn(line, " \t\r")] == 0)
		return LDNS_STATUS_SYNTAX_EMPTY;
	if (strncmp(line, "$ORIGIN", 7) == 0 && isspace((unsigned char) line[7])) {
		char *s = strtok_r(line + 8, " \t\r", &sv);
		if (origin && *origin) {
			ldns_rdf_deep_free(*origin);
			*origin = NULL;
		}
		if (s == NULL || s[strlen(s) - 1] != '.' || strlen(s) > 200)
			return LDNS_STATUS_SYNTAX_DNAME_ERR;
		if (origin)
			*origin = rdf_new(s, strlen(s));
		return LDNS_STATUS_SYNTAX_ORIGIN;
	}
	if (strncmp(line, "$TTL", 4) == 0 && isspace((unsigned char) line[4])) {
		char *s = strtok_r(line + 5, " \t\r", &sv);
		if (s != NULL && ttl && number(s, &v))
			*ttl = v;
		return LDNS_STATUS_SYNTAX_TTL;
	}
	if (strncmp(line, "$INCLUDE", 8) == 0)
		return LDNS_STATUS_SYNTAX_INCLUDE;
	p = line;
	if (*p == ' ' || *p == '\t')
		tok[k++] = NULL;
	for (char *s = strtok_r(p, " \t\r", &sv); s && k < 12; s = strtok_r(NULL, " \t\r", &sv))
		tok[k++] = s;
	if (k < 3)
		return LDNS_STATUS_SYNTAX_ERR;
	r = calloc(1, sizeof *r);
	objects++;
	r->ttl = ttl && *ttl ? *ttl : 3600;
	if (tok[0] == NULL)
		r->owner = prev && *prev ? ldns_rdf_clone(*prev) : dname("@", org);
	else
		r->owner = dname(tok[0], org);
	if (r->owner == NULL)
		goto bad;
	i = 1;
	if (number(tok[i], &v)) {
		r->ttl = v;
		i++;
	}
	if (i < k && strcmp(tok[i], "IN") == 0)
		i++;
	if (i >= k)
		goto bad;
	if (strcmp(tok[i], "A") == 0 && k == i + 2) {
		unsigned a[4];
		uint8_t b[4];
		if (sscanf(tok[i + 1], "%3u.%3u.%3u.%3u", &a[0], &a[1], &a[2], &a[3]) != 4)
			goto bad;
		for (int j = 0; j < 4; j++) {
			if (a[j] > 255)
				goto bad;
			b[j] = (uint8_t) a[j];
		}
		r->type = LDNS_RR_TYPE_A;
		r->f[r->n++] = rdf_new(b, 4);
	} else if (strcmp(tok[i], "NS") == 0 && k == i + 2) {
		r->type = LDNS_RR_TYPE_NS;
		if ((r->f[r->n] = dname(tok[i + 1], org)) == NULL)
			goto bad;
		r->n++;
	} else if (strcmp(tok[i], "TXT") == 0 && k == i + 2) {
		r->type = LDNS_RR_TYPE_TXT;
		r->f[r->n++] = rdf_new(tok[i + 1], strlen(tok[i + 1]));
	} else if (strcmp(tok[i], "SOA") == 0 && k == i + 8) {
		r->type = LDNS_RR_TYPE_SOA;
		for (int j = 0; j < 2; j++) {
			if ((r->f[r->n] = dname(tok[i + 1 + (size_t) j], org)) == NULL)
				goto bad;
			r->n++;
		}
		for (int j = 2; j < 7; j++) {
			uint8_t b[4];
			if (!number(tok[i + 1 + (size_t) j], &v))
				goto bad;
			b[0] = (uint8_t) (v >> 24); b[1] = (uint8_t) (v >> 16); b[2] = (uint8_t) (v >> 8); b[3] = (uint8_t) v;
			r->f[r->n++] = rdf_new(b, 4);
		}
	} else
		goto bad;
	if (prev) {
		ldns_rdf_deep_free(*prev);
		*prev = ldns_rdf_clone(r->owner);
	}
	*out = r;
	return LDNS_STATUS_OK;
bad:
	ldns_rr_free(r);
	return LDNS_STATUS_SYNTAX_ERR;
}
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev)
{
	return ldns_rr_new_frm_fp_l(rr, fp, ttl, origin, prev, NULL);
}

/* ------------------------------------------------------------------ streams */
static size_t fail_after;	/* the stream breaks after so many octets; 0: it does not */
static unsigned n_opened;
static int broke;

struct ck { int fd; size_t left; };
static ssize_t ck_read(void *c, char *b, size_t n)
{
	struct ck *k = c;
	ssize_t r;
	if (k->left == 0) {
		broke = 1;
		errno = EIO;
		return -1;
	}
	if (n > k->left)
		n = k->left;
	r = read(k->fd, b, n);
	if (r > 0)
		k->left -= (size_t) r;
	return r;
}
static int ck_close(void *c) { struct ck *k = c; close(k->fd); free(k); return 0; }

extern FILE *vf_fopen(const char *, const char *);
FILE *vf_fopen(const char *name, const char *mode)
{
	if (fail_after && mode[0] == 'r') {
		cookie_io_functions_t io = { .read = ck_read, .close = ck_close };
		struct ck *k;
		int fd = open(name, O_RDONLY);
		if (fd < 0)
			return NULL;
		k = malloc(sizeof *k);
		k->fd = fd;
		k->left = fail_after;
		n_opened++;
		return fopencookie(k, mode, io);
	}
	return fopen(name, mode);
}

static unsigned open_fds(void)
{
	unsigned n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (d == NULL)
		return 0;
	while (readdir(d) != NULL)
		n++;
	closedir(d);
	return n;
}

static void out_rr(const ldns_rr *r)
{
	out_bytes(r->owner->data, r->owner->size);
	out_num(r->ttl);
	out_num((uint64_t) r->type);
	out_num(r->n);
	for (size_t i = 0; i < r->n; i++)
		out_bytes(r->f[i]->data, r->f[i]->size);
}

static const uint8_t *pc, *pe;
/* removes what is in the directory, which this harness made, and says how much it was */
static unsigned clean(int fd)
{
	unsigned n = 0;
	struct dirent *e;
	DIR *d = fdopendir(dup(fd));
	if (d == NULL)
		return 0;
	while ((e = readdir(d)) != NULL)
		if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
			n++;
			unlinkat(fd, e->d_name, 0);
		}
	closedir(d);
	return n;
}

/* 1: NAME CONTENT KIND(0 file, 1 none, 2 directory) FAIL SCRIPT
 * the script's octets: 'r' read, 's' serial, 'c' count, 'd' domain, 'n' read to the end */
static void op_zone(void)
{
	static unsigned serial;
	char dir[64], name[300];
	struct zonefile *z;
	unsigned kind = (unsigned) arg_num(2), fds;
	int pwned, here, back = open(".", O_RDONLY | O_DIRECTORY);

	snprintf(dir, sizeof dir, "zone-%d-%u", (int) getpid(), serial++);
	if (back < 0 || mkdir(dir, 0700) != 0 || chdir(dir) != 0 || (here = open(".", O_RDONLY | O_DIRECTORY)) < 0) { fprintf(stderr, "harness: no directory\n"); _exit(91); }
	snprintf(name, sizeof name, "%.*s", (int) args[0].len, (const char *) args[0].p);
	if (kind == 0) {
		int fd = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || write(fd, args[1].p, args[1].len) != (ssize_t) args[1].len || close(fd) != 0) { fprintf(stderr, "harness: cannot write %s\n", name); _exit(91); }
	} else if (kind == 2 && mkdir(name, 0700) != 0) { fprintf(stderr, "harness: cannot make %s\n", name); _exit(91); }
	fail_after = (size_t) arg_num(3);
	broke = 0;
	n_opened = 0;
	at_end = 0;
	objects = 0;
	fds = open_fds();
	{
		uint8_t *nm = dup_exact((uint8_t *) name, strlen(name), true);
		BEGIN();
		z = zonefile_init_fname((char *) nm);
		END();
		free(nm);
	}
	out_num(z != NULL);
	pc = args[4].p;
	pe = pc + args[4].len;
	for (; z != NULL && pc < pe; pc++) {
		ldns_rr *rr = NULL;
		ldns_status s;
		unsigned more = *pc == 'n' ? 100000 : 1, errs = 0;
		switch (*pc) {
		case 's': { BEGIN(); uint32_t v = zonefile_get_serial(z); END(); out_str("s"); out_num(v); break; }
		case 'c': { BEGIN(); size_t v = zonefile_get_count(z); END(); out_str("c"); out_num(v); break; }
		case 'd': { BEGIN(); const ldns_rdf *d = zonefile_get_domain(z); END(); out_str("d"); out_bytes(d->data, d->size); break; }
		case 'r': case 'n':
			while (more--) {
				rr = NULL;
				BEGIN();
				s = zonefile_read(z, &rr);
				END();
				if (s != LDNS_STATUS_OK) {
					out_str("e");
					if (rr != NULL) { fprintf(stderr, "VF-OWN: a record together with an error\n"); abort(); }
					if (++errs >= 300)
						break;
				} else if (rr == NULL) {
					out_str("0");
					break;
				} else {
					errs = 0;
					out_str("r");
					out_rr(rr);
					BEGIN();
					ldns_rr_free(rr);
					END();
				}
			}
			break;
		}
	}
	BEGIN();
	zonefile_destroy(&z);
	END();
	out_str("end");
	out_num(z == NULL);
	BEGIN();
	zonefile_destroy(&z);
	END();
	out_num((uint64_t) objects);
	out_num((uint64_t) (int64_t) live_blocks);
	out_num(open_fds() - fds);
	out_num((uint64_t) broke);
	out_num(n_opened);
	unlinkat(here, name, 0);
	unlinkat(here, name, AT_REMOVEDIR);
	/* nothing else may have come into being */
	pwned = (int) clean(here);
	close(here);
	if (fchdir(back) != 0) _exit(91);
	close(back);
	rmdir(dir);
	out_num((uint64_t) pwned);
	out_num(waitpid(-1, NULL, WNOHANG) != -1);	/* no process may be left */
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_zone(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
