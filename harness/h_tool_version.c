#include <stdlib.h>
extern void vf_exit(int);
#define exit vf_exit
#define main version_main

#include "examples/wdns-print-version.c"
#undef main
extern int version_tool(int, char **);
int version_tool(int c, char **v) { (void) c; (void) v; return version_main(); }
