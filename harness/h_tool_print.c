#include "examples/private.h"
#include <wdns.h>
extern void vf_exit(int);
#define exit vf_exit
#define main print_main
#define loadfunc print_loadfunc
#define testfunc print_testfunc
#define freefunc print_freefunc
#define rrset print_rrset
#define m print_m
#include "examples/wdns-test-print-message.c"
#include "examples/wdns-hex-driver.c"
