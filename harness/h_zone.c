/* libmy/zonefile.c over the stand-in for libldns */
#include <stdio.h>
#include <string.h>
extern FILE *vf_fopen(const char *, const char *);
#define fopen vf_fopen
#include "libmy/zonefile.c"
