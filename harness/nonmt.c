/* C library functions that keep what they return in one object of the whole
 * process: ThreadSanitizer does not see into the C library, so each call here
 * also writes a word of its own, which two unordered calls race on.
 * Linked with -Wl,--wrap for each of them. */
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <locale.h>
#include <netdb.h>
#include <libgen.h>
#include <arpa/inet.h>
#include <netinet/ether.h>

static volatile unsigned touched[32];
#define T(k) (touched[k] = touched[k] + 1)
#define W(k, ret, name, par, call) \
	ret __real_##name par; \
	ret __wrap_##name par { T(k); return __real_##name call; }

W(0, char *, strtok, (char *s, const char *d), (s, d))
W(1, char *, inet_ntoa, (struct in_addr a), (a))
W(2, struct tm *, gmtime, (const time_t *t), (t))
W(2, struct tm *, localtime, (const time_t *t), (t))
W(2, char *, ctime, (const time_t *t), (t))
W(2, char *, asctime, (const struct tm *t), (t))
W(3, char *, strerror, (int e), (e))
W(3, char *, strsignal, (int e), (e))
W(4, int, rand, (void), ())
W(4, long, random, (void), ())
W(4, void, srand, (unsigned s), (s))
W(4, void, srandom, (unsigned s), (s))
W(5, double, drand48, (void), ())
W(5, long, lrand48, (void), ())
W(6, char *, ether_ntoa, (const struct ether_addr *a), (a))
W(6, struct ether_addr *, ether_aton, (const char *s), (s))
W(7, struct hostent *, gethostbyname, (const char *n), (n))
W(8, struct servent *, getservbyname, (const char *n, const char *p), (n, p))
W(8, struct servent *, getservbyport, (int n, const char *p), (n, p))
W(9, struct protoent *, getprotobyname, (const char *n), (n))
W(9, struct protoent *, getprotobynumber, (int n), (n))
W(10, char *, setlocale, (int c, const char *l), (c, l))
W(11, int, setenv, (const char *n, const char *v, int o), (n, v, o))
W(11, int, putenv, (char *s), (s))
W(11, int, unsetenv, (const char *s), (s))
W(12, char *, ecvt, (double v, int n, int *d, int *s), (v, n, d, s))
W(12, char *, fcvt, (double v, int n, int *d, int *s), (v, n, d, s))
W(13, char *, l64a, (long v), (v))
W(14, char *, dirname, (char *s), (s))
