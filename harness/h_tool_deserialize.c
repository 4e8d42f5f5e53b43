#include "examples/private.h"
#include <wdns.h>
extern void vf_exit(int);
#define exit vf_exit
#define main deserialize_main
#define loadfunc deserialize_loadfunc
#define testfunc deserialize_testfunc
#define freefunc deserialize_freefunc
#define rrset deserialize_rrset
#define m deserialize_m
#include "examples/wdns-test-deserialize-rrset.c"
#include "examples/wdns-hex-driver.c"
