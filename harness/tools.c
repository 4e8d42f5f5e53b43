/* The programs under examples/, run in this process on inputs of every kind. */
#include "proto.h"
#include <pcap.h>
#include <setjmp.h>
#include <wdns.h>

extern int dump_file_main(int, char **), dump_pcap_main(int, char **), print_main(int, char **), serialize_main(int, char **),
	deserialize_main(int, char **), downcase_main(int, char **), version_tool(int, char **);
static jmp_buf gone;
static int gone_rc;
extern void vf_exit(int);
void vf_exit(int rc) { gone_rc = rc; longjmp(gone, 1); }

/* every packet is handed over in an allocation of its own */
struct over { pcap_handler cb; u_char *user; };
static void handed(u_char *u, const struct pcap_pkthdr *h, const u_char *p)
{
	struct over *o = (struct over *) u;
	uint8_t *c = dup_exact(p, h->caplen, false);
	o->cb(o->user, h, c);
	free(c);
}
extern int vf_pcap_loop(pcap_t *, int, pcap_handler, u_char *);
int vf_pcap_loop(pcap_t *p, int n, pcap_handler cb, u_char *user)
{
	struct over o = { cb, user };
	return pcap_loop(p, n, handed, (u_char *) &o);
}

static void run_tool(int (*tool)(int, char **), int ac, char **av)
{
	char *ob = NULL, *eb = NULL;
	size_t ol = 0, el = 0;
	FILE *so = stdout, *se = stderr, *o = open_memstream(&ob, &ol), *e = open_memstream(&eb, &el);
	volatile int rc;

	stdout = o;
	stderr = e;
	rc = setjmp(gone) == 0 ? tool(ac, av) : gone_rc;
	stdout = so;
	stderr = se;
	fclose(o);
	fclose(e);
	out_num((uint64_t) rc);
	out_bytes(ob, ol);
	out_bytes(eb, el);
	free(ob);
	free(eb);
}

static void put(const char *path, const void *p, size_t n)
{
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, p, n) != (ssize_t) n || close(fd) != 0) { fprintf(stderr, "harness: cannot write %s\n", path); _exit(91); }
}

static void ref_message(const uint8_t *p, size_t n, int what)
{
	wdns_message_t m;
	uint8_t *c = dup_exact(p, n, false);
	wdns_res r = wdns_parse_message(&m, c, n);
	free(c);
	out_num((uint64_t) r);
	if (r != wdns_res_success)
		return;
	if (what == 0) {
		char *s = wdns_message_to_str(&m);
		out_bytes(s ? s : "", s ? strlen(s) : 0);
		free(s);
	} else {
		char *b = NULL;
		size_t l = 0;
		FILE *f = open_memstream(&b, &l);
		for (unsigned s = 1; s < WDNS_MSG_SEC_MAX; s++)
			for (unsigned i = 0; i < m.sections[s].n_rrsets; i++) {
				size_t z = 0;
				uint8_t *q;
				wdns_serialize_rrset(&m.sections[s].rrsets[i], NULL, &z);
				q = malloc(z);
				wdns_serialize_rrset(&m.sections[s].rrsets[i], q, NULL);
				for (size_t k = 0; k < z; k++)
					fprintf(f, "%02x", q[k]);
				fprintf(f, "\n");
				free(q);
			}
		fclose(f);
		out_bytes(b, l);
		free(b);
	}
	wdns_clear_message(&m);
}

/* 1: FILE -> rc out err, then what the library makes of it */
static void op_file(void)
{
	char *av[] = { "wdns-dump-file", "tool.in", NULL };
	put("tool.in", args[0].p, args[0].len);
	run_tool(dump_file_main, 2, av);
	unlink("tool.in");
	ref_message(args[0].p, args[0].len, 0);
}

/* 2: WHICH HEX RAW -> rc out err, what the library makes of RAW */
static void op_hex(void)
{
	static int (*const tool[])(int, char **) = { print_main, serialize_main, deserialize_main, downcase_main };
	unsigned w = (unsigned) arg_num(0) & 3;
	uint8_t *h = dup_exact(args[1].p, args[1].len, true);
	char *av[] = { "tool", (char *) h, NULL };
	run_tool(tool[w], 2, av);
	free(h);
	if (w < 2)
		ref_message(args[2].p, args[2].len, (int) w);
	else {
		wdns_rrset_t r;
		uint8_t *c = dup_exact(args[2].p, args[2].len, false);
		wdns_res res = wdns_deserialize_rrset(&r, c, args[2].len);
		free(c);
		out_num((uint64_t) res);
		if (res == wdns_res_success) {
			char *s = NULL;
			if (w == 2 || wdns_downcase_rrset(&r) == wdns_res_success)
				s = wdns_rrset_to_str(&r, WDNS_MSG_SEC_ANSWER);
			out_bytes(s ? s : "", s ? strlen(s) : 0);
			free(s);
			wdns_clear_rrset(&r);
		}
	}
}

/* 3: PCAP (DNS messages...) -> rc out err OUTFILE, then what the library makes of each message */
static void op_pcap(void)
{
	char *av[] = { "wdns-dump-pcap", "tool.pcap", "tool.out", "", NULL };
	static uint8_t b[1 << 20];
	ssize_t n = 0;
	int fd;
	put("tool.pcap", args[0].p, args[0].len);
	run_tool(dump_pcap_main, 4, av);
	if ((fd = open("tool.out", O_RDONLY)) >= 0) {
		n = read(fd, b, sizeof b);
		close(fd);
	}
	out_bytes(b, n > 0 ? (size_t) n : 0);
	unlink("tool.out");
	unlink("tool.pcap");
	for (unsigned i = 1; i < n_args; i++)
		ref_message(args[i].p, args[i].len, 0);
}

/* 4: WHICH ARGC -> rc; wrong number of arguments, missing file */
static void op_usage(void)
{
	static int (*const tool[])(int, char **) = { print_main, serialize_main, deserialize_main, downcase_main, dump_file_main, dump_pcap_main };
	char *av[] = { "tool", "/nonexistent/vf", "tool.o1", "", "x", "y", NULL };
	unsigned n = (unsigned) arg_num(1);
	av[n] = NULL;
	run_tool(tool[arg_num(0) % 6], (int) n, av);
	unlink("tool.o1");
}

/* 5: version */
static void op_version(void)
{
	char *av[] = { "wdns-print-version", NULL };
	run_tool(version_tool, 1, av);
	out_str(WDNS_LIBRARY_VERSION);
	out_num(WDNS_LIBRARY_VERSION_NUMBER);
}

static void run_case(uint8_t op)
{
	switch (op) {
	case 1: op_file(); break;
	case 2: op_hex(); break;
	case 3: op_pcap(); break;
	case 4: op_usage(); break;
	case 5: op_version(); break;
	default: fprintf(stderr, "harness: bad op %u\n", op); _exit(91);
	}
}

int main(int argc, char **argv) { return proto_main(argc, argv); }
