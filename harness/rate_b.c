/* my_rate with gettimeofday() and nanosleep(), on a virtual clock */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
int vf_gettimeofday(struct timeval *, void *);
int vf_nanosleep(const struct timespec *, struct timespec *);
#define gettimeofday vf_gettimeofday
#define nanosleep vf_nanosleep
#define my_rate_init b_rate_init
#define my_rate_sleep b_rate_sleep
#define my_rate_destroy b_rate_destroy
#include "libmy/my_rate.c"
