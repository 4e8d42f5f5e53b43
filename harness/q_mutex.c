#include <pthread.h>
#ifdef VF_SCHED
# include "q_sched.h"
#endif
#define my_queue_mutex_ops vf_mutex_ops
#include "libmy/my_queue_mutex.c"
