#include <unistd.h>
int vf_usleep(useconds_t);
#define usleep vf_usleep
#include "libmy/spooldir.c"
