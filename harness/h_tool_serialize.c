#include "examples/private.h"
#include <wdns.h>
extern void vf_exit(int);
#define exit vf_exit
#define main serialize_main
#define loadfunc serialize_loadfunc
#define testfunc serialize_testfunc
#define freefunc serialize_freefunc
#define rrset serialize_rrset
#define m serialize_m
#include "examples/wdns-test-serialize-rrset.c"
#include "examples/wdns-hex-driver.c"
