/* my_rate with clock_gettime() and clock_nanosleep(), on a virtual clock */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
int vf_clock_gettime(clockid_t, struct timespec *);
int vf_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
#define clock_gettime vf_clock_gettime
#define clock_nanosleep vf_clock_nanosleep
#define my_rate_init a_rate_init
#define my_rate_sleep a_rate_sleep
#define my_rate_destroy a_rate_destroy
#include "libmy/my_rate.c"
