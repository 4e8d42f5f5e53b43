#include <stdlib.h>
extern void vf_exit(int);
#define exit vf_exit
#define main dump_pcap_main
#include <pcap.h>
extern int vf_pcap_loop(pcap_t *, int, pcap_handler, u_char *);
#define pcap_loop vf_pcap_loop
#include "examples/wdns-dump-pcap.c"
