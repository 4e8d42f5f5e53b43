#include <pthread.h>
int vf_lock(pthread_mutex_t *);
int vf_trylock(pthread_mutex_t *);
int vf_unlock(pthread_mutex_t *);
#define pthread_mutex_lock vf_lock
#define pthread_mutex_trylock vf_trylock
#define pthread_mutex_unlock vf_unlock
