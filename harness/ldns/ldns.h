/* A stand-in for the part of libldns that libmy/zonefile.c uses: the same
 * interface and the same ownership rules over a small zone file language.
 * It counts the objects alive and notices readers that never stop. */
#ifndef VF_LDNS_H
#define VF_LDNS_H
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef enum {
	LDNS_STATUS_OK, LDNS_STATUS_EMPTY_LABEL, LDNS_STATUS_LABEL_OVERFLOW, LDNS_STATUS_DOMAINNAME_OVERFLOW,
	LDNS_STATUS_MEM_ERR = 8, LDNS_STATUS_INTERNAL_ERR, LDNS_STATUS_ERR = 13, LDNS_STATUS_INVALID_INT = 15,
	LDNS_STATUS_FILE_ERR = 22, LDNS_STATUS_SYNTAX_ERR = 59, LDNS_STATUS_SYNTAX_TTL, LDNS_STATUS_SYNTAX_ORIGIN,
	LDNS_STATUS_SYNTAX_INCLUDE, LDNS_STATUS_SYNTAX_EMPTY, LDNS_STATUS_SYNTAX_DNAME_ERR = 50
} ldns_status;
typedef enum { LDNS_RR_TYPE_A = 1, LDNS_RR_TYPE_NS = 2, LDNS_RR_TYPE_SOA = 6, LDNS_RR_TYPE_TXT = 16 } ldns_rr_type;
typedef enum { LDNS_RR_CLASS_IN = 1 } ldns_rr_class;
typedef struct ldns_rdf { size_t size; uint8_t *data; } ldns_rdf;
typedef struct ldns_rr { ldns_rdf *owner; uint32_t ttl; ldns_rr_type type; size_t n; ldns_rdf *f[8]; } ldns_rr;

ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr);
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev);
ldns_rdf *ldns_rr_owner(const ldns_rr *);
ldns_rr_type ldns_rr_get_type(const ldns_rr *);
ldns_rr_class ldns_rr_get_class(const ldns_rr *);
uint32_t ldns_rr_ttl(const ldns_rr *);
size_t ldns_rr_rd_count(const ldns_rr *);
ldns_rdf *ldns_rr_rdf(const ldns_rr *, size_t);
ldns_rr *ldns_rr_clone(const ldns_rr *);
void ldns_rr_free(ldns_rr *);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *);
void ldns_rdf_deep_free(ldns_rdf *);
void ldns_rdf_free(ldns_rdf *);
size_t ldns_rdf_size(const ldns_rdf *);
uint8_t *ldns_rdf_data(const ldns_rdf *);
uint32_t ldns_rdf2native_int32(const ldns_rdf *);
int ldns_rdf_compare(const ldns_rdf *, const ldns_rdf *);
int ldns_dname_compare(const ldns_rdf *, const ldns_rdf *);
const char *ldns_get_errorstr_by_id(ldns_status);
#endif
