#include "examples/private.h"
#include <wdns.h>
extern void vf_exit(int);
#define exit vf_exit
#define main downcase_main
#define loadfunc downcase_loadfunc
#define testfunc downcase_testfunc
#define freefunc downcase_freefunc
#define rrset downcase_rrset
#define m downcase_m
#include "examples/wdns-test-downcase-rrset.c"
#include "examples/wdns-hex-driver.c"
