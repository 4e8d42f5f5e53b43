/* The tree's queue as the program gets it (memory barriers where there are any). */
#include "libmy/my_memory_barrier.h"
#ifdef VF_SCHED
void vf_barrier(void);
# undef smp_mb
# undef smp_wmb
# undef smp_rmb
# define smp_mb() vf_barrier()
# define smp_wmb() vf_barrier()
# define smp_rmb() vf_barrier()
# include "q_sched.h"
#endif
#define my_queue_mb_ops vf_unused_mb_ops
#define my_queue_mutex_ops vf_unused_mutex_ops
#include "libmy/my_queue.c"
