#include <stdlib.h>
extern void vf_exit(int);
#define exit vf_exit
#define main dump_file_main

#include "examples/wdns-dump-file.c"
