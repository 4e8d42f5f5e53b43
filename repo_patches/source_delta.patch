From 5f299d52dfb49db64d8ff8fddb3fb5256e017974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 01/79] fix: wdns_unpack_name() reads past the end of the
 message

A compression pointer or a label that ended with the last octet of the
message made it read one octet beyond the end.
---
 wdns/unpack_name.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..5a430b2 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -45,7 +45,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -75,7 +75,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From c897e885e33b15c39659416e6121232d5a52540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 02/79] fix: wdns_copy_uname() reads past the end of the
 message

A label that ended with the last octet made it read the next length octet
from beyond the end.
---
 wdns/copy_uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..5923ca2 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -50,7 +50,7 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 			total_len += c;
 			if (total_len >= WDNS_MAXLEN_NAME)
 				return (wdns_res_name_overflow);
-			if (src + c > eop)
+			if (c >= eop - src)
 				return (wdns_res_out_of_bounds);
 			memcpy(dst, src, c);
 
-- 
2.43.0


From 7332f3bd2d16d3e83a8ea7371a137d1b83910186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 03/79] fix: wdns_skip_name() reads past the end of the buffer

With no terminal octet in the buffer it read the octet at the end.
---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 3e6fef859b7a3fd7436d463eda8b8ba2518faa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 04/79] fix: wdns_len_uname() accepts a name without its
 terminal octet

When the last label ended with the buffer the remaining length wrapped
around, and a length one larger than the buffer was returned with success.
---
 wdns/len_uname.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..7d366b3 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -36,8 +36,11 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 	if (p >= eop)
 		return (wdns_res_overflow);
 
-	while (len-- != 0) {
+	for (;;) {
 		uint8_t oclen;
+
+		if (len-- == 0)
+			return (wdns_res_overflow);
 		WDNS_BUF_GET8(oclen, p);
 
 		if (oclen > 63 || oclen > len)
-- 
2.43.0


From 93512075f70b04d8662cbc2ad4eb34d799a56a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 05/79] fix: wdns_domain_to_str() overruns its buffers

A name without its terminal octet made it read past the end of the source,
and one longer than any domain name made it write past the destination.
---
 wdns/domain_to_str.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..6a1d857 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,7 +33,10 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
+	if (bytes_remaining > WDNS_MAXLEN_NAME)
+		bytes_remaining = WDNS_MAXLEN_NAME;
+
+	oclen = bytes_remaining > 0 ? *src : 0;
 	while (bytes_remaining > 0 && oclen != 0) {
 		src++;
 		bytes_remaining--;
@@ -55,7 +58,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
+		oclen = bytes_remaining > 0 ? *src : 0;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From 84c501246e476640ae7318ea74bd6d6c035381b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 06/79] fix: wdns_count_labels() reads past the end of the name

A name without its terminal octet made it (and wdns_is_subdomain()) read
one octet beyond it.
---
 wdns/count_labels.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..3a522b1 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -33,11 +33,14 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 	*nlabels = 0;
 	data = name->data;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	while ((c = *data++) != 0) {
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-			if (data - name->data > name->len)
+			if (data - name->data >= name->len)
 				return (wdns_res_name_overflow);
 		} else {
 			return (wdns_res_invalid_length_octet);
-- 
2.43.0


From 31b6da9818a6711c87ee7ad096fd649b76067347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 07/79] fix: wdns_left_chop() on a name without its terminal
 octet

It returned an empty name for one that consisted of a single label only, and
read beyond that empty name when called again.
---
 wdns/left_chop.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/left_chop.c b/wdns/left_chop.c
index 5da4de0..1df6bfd 100644
--- a/wdns/left_chop.c
+++ b/wdns/left_chop.c
@@ -19,6 +19,9 @@ wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
 {
 	uint8_t oclen;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	oclen = name->data[0];
 
 	if (oclen == 0 && name->len == 1) {
@@ -27,7 +30,7 @@ wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
 		return (wdns_res_success);
 	}
 
-	if (oclen > name->len - 1)
+	if (oclen >= name->len - 1)
 		return (wdns_res_name_overflow);
 
 	chop->len = name->len - oclen - 1;
-- 
2.43.0


From 119f689703572c3cdbaafee464e91ec3ea6e46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 08/79] fix: wdns_reverse_name() writes before its destination

A name without its terminal octet made it write one octet before the
destination and read beyond the end of the source.
---
 wdns/reverse_name.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..249d49b 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,6 +20,9 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0)
+		return (wdns_res_out_of_bounds);
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
@@ -27,7 +30,7 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	while ((len = *p) != '\x00') {
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From 04aa136ddcad311f6a4945401a27546aac15be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 09/79] fix: EDNS extended rcode is shifted too far

The upper eight bits of the rcode go above the four bits of the header
(RFC 6891), they were put above eight bits, so that BADVERS came out as 256.
---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..a5233fb 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0xFF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From b308b612f9a8c767d2b997f0b734d4e7cfd0bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 10/79] fix: null dereference when an RRset of the question
 section is printed

Such an RRset has no rdatas.
---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..f9d5aa5 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		rr.rdata = (sec == WDNS_MSG_SEC_QUESTION) ? NULL : rrset->rdatas[i];
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 3a6f5b82f8a5a9e3bf518bd6fff68705bc2f7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 11/79] fix: a question for type OPT is taken for EDNS

It has no TTL and no rdata, disappeared from the question section, and kept
the real OPT record from being recognised.
---
 wdns/parse_message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_message.c b/wdns/parse_message.c
index c76780e..2af06ee 100644
--- a/wdns/parse_message.c
+++ b/wdns/parse_message.c
@@ -56,7 +56,8 @@ wdns_parse_message(wdns_message_t *m, const uint8_t *pkt, size_t len)
 			 * the DNS header and treat all subsequent ones as
 			 * ordinary resource records.
 			 */
-			if (rr.rrtype == WDNS_TYPE_OPT && !m->edns.present) {
+			if (rr.rrtype == WDNS_TYPE_OPT && sec != WDNS_MSG_SEC_QUESTION &&
+			    !m->edns.present) {
 				res = _wdns_parse_edns(m, &rr);
 				if (res != wdns_res_success)
 					goto err;
-- 
2.43.0


From 96b592157a32230de0928513157406d06a7ac6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 12/79] fix: wdns_downcase_rdata() mistakes where a name in the
 rdata ends

A name without its terminal octet made it run through memory beyond the
rdata, and a name with a zero octet in a label was taken to end there.
---
 wdns/downcase_rdata.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..9548a6e 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -28,6 +28,8 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	const record_descr *descr;
 	const uint8_t *t;
 	size_t bytes_remaining = rdata->len;
+	size_t name_len;
+	wdns_res res;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
 
@@ -79,11 +81,11 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
-					}
+				res = wdns_len_uname(p, p + bytes_remaining, &name_len);
+				if (res != wdns_res_success)
+					return (wdns_res_parse_error);
+				bytes_remaining -= name_len;
+				while (name_len-- != 0) {
 					if (*p >= 'A' && *p <= 'Z')
 						*p |= 0x20;
 					p++;
-- 
2.43.0


From e9f975fc498a06e971e8de6f191b587c1a274c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 13/79] fix: wdns_downcase_rdata() misreads the address prefix
 of A6

The octet in front of the address suffix is the prefix length in bits, it was
taken for a count of octets, so that nearly every A6 record was refused or
had its address downcased.
---
 wdns/downcase_rdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 9548a6e..44b34ac 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -134,9 +134,9 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
-				advance_bytes(oclen + 1U);
+				advance_bytes((128U - oclen + 7U) / 8U + 1U);
 				break;
 
 			default:
-- 
2.43.0


From 627f980632270a664f1f317cc75d872fcbef2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 14/79] fix: SvcParam length wraps around when a message is
 parsed

A value length of 65532 or more made the bounds check pass and its content
be read from beyond the rdata.
---
 wdns/parse_rdata.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..d6f7b02 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				uint32_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
@@ -295,7 +296,7 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 					kv_len = sizeof(key) + sizeof(val_len) +
 					    val_len;
-					if (kv_len > src_bytes) {
+					if ((ssize_t) kv_len > src_bytes) {
 						res = wdns_res_out_of_bounds;
 						goto parse_error;
 					}
-- 
2.43.0


From a08a254ec52bf26d02346f3e1cf38490921fbfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 15/79] fix: rdata longer than 65535 octets after name
 expansion

Its length was cut to sixteen bits, so that a record with most of its data
missing was reported. Refuse it.
---
 wdns/parse_rdata.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index d6f7b02..5c12bb6 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,10 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From cebcf2a3e46962ce345073b3e46f7ceefbe593b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 16/79] fix: wdns_str_to_name() reads past the end of the
 string

After a backslash at the end of the string it missed the terminator and went
on with whatever followed in memory.
---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From e80d279ee104ccbe78543f916bd63fc15e0efb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 17/79] fix: wdns_str_to_name() accepts labels longer than 63
 octets

The name it returned was no valid wire name: its length octet meant a
compression pointer or a reserved label type.
---
 wdns/str_to_name.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..ff8ad71 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -55,7 +55,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				res = wdns_res_name_overflow;
 				goto out;
 			}
-			*oclen = --label_len;
+			if (--label_len > 63)
+				goto out;
+			*oclen = label_len;
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -110,9 +112,9 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			goto out;
 		} else if (c == '.') {
 			/* end of label */
-			*oclen = --label_len;
-			if (label_len == 0)
+			if (--label_len == 0 || label_len > 63)
 				goto out;
+			*oclen = label_len;
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From 61bcf5a3fd27f1917cf166bfbded2b598562ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 18/79] fix: wdns_file_load_names() reads and writes before its
 line buffer

For a line that starts with a NUL octet.
---
 wdns/file_load_names.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..8143d70 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -32,7 +32,7 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	while (fgets(line, sizeof(line), fp) != NULL) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
+		if (line[0] != '\0' && line[strlen(line) - 1] == '\n')
 			line[strlen(line) - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
-- 
2.43.0


From 29bdb7e91944a75e79eaab07bf3063c20493db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 19/79] fix: wdns_file_load_names() takes the rest of a long
 comment for a name

A comment line longer than the line buffer was skipped only in part.
---
 wdns/file_load_names.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 8143d70..81a661e 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -30,8 +30,13 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	memset(line, 0, sizeof(line));
 
 	while (fgets(line, sizeof(line), fp) != NULL) {
-		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
+		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#') {
+			/* skip the rest of a line longer than the buffer */
+			while (strchr(line, '\n') == NULL &&
+			       fgets(line, sizeof(line), fp) != NULL)
+				;
 			continue;
+		}
 		if (line[0] != '\0' && line[strlen(line) - 1] == '\n')
 			line[strlen(line) - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
-- 
2.43.0


From 48d5cfcbb49db3dc20bfb8b8973e56f77b506d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 20/79] fix: wdns_file_load_names() ignores read errors

It reported success when the file could not be read, or only in part.
---
 wdns/file_load_names.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 81a661e..20e5e85 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -45,6 +45,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		cb(&name, user);
 	}
 
+	if (res == wdns_res_success && ferror(fp))
+		res = wdns_res_failure;
+
 	fclose(fp);
 	return (res);
 }
-- 
2.43.0


From 966fa0930b8fd3e1c598d621a699c8ebe2aced89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 21/79] fix: base64_decode_value() reads past the end of its
 table

For the character '{'.
---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 34f80c0e2a7070dcbf0d3f64acbbc037528509ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 22/79] fix: base32_decode() fills a shared table without
 synchronisation

Two threads that made the first calls raced on the table, and a thread that
saw it half filled decoded garbage. The value of a character is now computed.
---
 libmy/b32_decode.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..91cd5ec 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -92,14 +92,16 @@ ptr_diff(const void *a, const void *b)
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
-};
-
-static char base32_map[(size_t) (unsigned char) -1 + 1];
+static inline unsigned char
+base32_value(int c)
+{
+	c = ascii_toupper(c);
+	if (c >= '0' && c <= '9')
+		return c - '0';
+	if (c >= 'A' && c <= 'V')
+		return c - 'A' + 10;
+	return (unsigned char) -1;
+}
 
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
@@ -121,16 +123,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
@@ -143,7 +135,7 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 			pad++;
 			c = 0;
 		} else {
-			c = base32_map[c];
+			c = base32_value(c);
 			if ((unsigned char) -1 == c) {
 				return -1;
 			}
-- 
2.43.0


From bd066529e2ac8d6f908ed54f2d71ed43f6968adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 23/79] fix: hexadecimal digits in rdata text are not checked

Only the conversion of the first digit was: "1z" was read as 01, and a blank,
as between the groups of a long digest, shifted all the octets after it.
---
 wdns/str_to_rdata_ubuf.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..1db0406 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -17,6 +17,16 @@
 
 VECTOR_GENERATE(u16buf, uint16_t)
 
+/*
+ * hex_pair_to_byte() reads one octet from exactly two hexadecimal digits.
+ */
+static bool
+hex_pair_to_byte(const char *str, uint8_t *c) {
+	if (!isxdigit((unsigned char)str[0]) || !isxdigit((unsigned char)str[1]))
+		return (false);
+	return (sscanf(str, "%2hhx", c) == 1);
+}
+
 static size_t
 rdata_from_str_string(const uint8_t *src, ubuf *u) {
 	const uint8_t *ptr = src;
@@ -404,7 +414,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				res = wdns_res_parse_error;
 				goto err;
 			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (!hex_pair_to_byte(str, &c)) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -473,11 +483,17 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		case rdf_bytes:
 			while (*str) {
 				uint8_t c;
+
+				if (isspace(*str)) {
+					str++;
+					continue;
+				}
+
 				if (*(str+1) == 0) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+				if (!hex_pair_to_byte(str, &c)) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -614,7 +630,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (!hex_pair_to_byte(str, &c)) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From b9b5ca72821f0e59ed6f4dfd1acc20cc66e63cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 24/79] fix: length of generic rdata text is uninitialised or
 wraps around

The length was not read at all from a text that ends after "\# ", and was
taken modulo 65536 otherwise.
---
 wdns/str_to_rdata_ubuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 1db0406..f626fb3 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -394,8 +394,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		unsigned long rdlen;
+		if (sscanf(str, "%lu", &rdlen) != 1 || rdlen > UINT16_MAX) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From d830057896d84f1127e0a3a02c788cfaa7524fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 25/79] fix: A6 prefix length of rdata text wraps around

300 was taken for 44.
---
 wdns/str_to_rdata_ubuf.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index f626fb3..0613697 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -524,6 +524,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			unsigned long prefix_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -539,15 +540,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
-				res = wdns_res_parse_error;
-				goto err;
-			}
-
-			if (prefix_len > 128) {
+			if (sscanf(str, "%lu", &prefix_val) != 1 || prefix_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
+			prefix_len = (uint8_t)prefix_val;
 
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
-- 
2.43.0


From c302ec93080c40108a62aed949e3f6eb2f92aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 26/79] fix: SvcParam port and key numbers accept a sign

"port=+80", and with wrap-around "key-18446744073709551611".
---
 wdns/str_to_rdata_ubuf.c   | 2 +-
 wdns/svcparamkeys_to_str.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 0613697..3433755 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -218,7 +218,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tmpul = strtoul(tok, &endport, 10);
-		if (*endport != '\0' || tmpul > UINT16_MAX) {
+		if (!isdigit((unsigned char)*tok) || *endport != '\0' || tmpul > UINT16_MAX) {
 			return (wdns_res_parse_error);
 		}
 
diff --git a/wdns/svcparamkeys_to_str.c b/wdns/svcparamkeys_to_str.c
index 1fca8ef..4a5453d 100644
--- a/wdns/svcparamkeys_to_str.c
+++ b/wdns/svcparamkeys_to_str.c
@@ -79,7 +79,7 @@ _wdns_str_to_svcparamkey(char *str)
 		key = strtoul(str + strlen("key"), &endp, 10);
 		assert(endp != NULL);
 
-		if (*endp != '\0' || key >= (unsigned long int)spr_invalid) {
+		if (!isdigit((unsigned char)str[3]) || *endp != '\0' || key >= (unsigned long int)spr_invalid) {
 			return (spr_invalid);
 		}
 
-- 
2.43.0


From 3c4bbab0e63bff75dbda738ac19c217fdf8b7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 27/79] fix: SvcParam alpn text with empty or long ids gives
 malformed rdata

An empty last id left its length octet outside the value, and the length of
an id of more than 255 octets wrapped around.
---
 wdns/str_to_rdata_ubuf.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 3433755..8fefac6 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -282,7 +282,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 * in presentation format, as escaped spaces and commas are allowed.
 	 */
 	case spr_alpn: {
-		size_t i, offset;
+		size_t i, offset, id_len = 0;
 		uint8_t oclen;
 
 		/* append a 'length' byte to be updated later */
@@ -310,27 +310,30 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				}
 
 				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
+				id_len++;
 			} else if (c == ',') {
 				/*
 				 * An unescaped comma separates two values.
 				 */
-				ubuf_data(u)[offset] = oclen;
-				val_len += oclen + sizeof (uint8_t);
+				if (id_len == 0 || id_len > UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
+				ubuf_data(u)[offset] = (uint8_t)id_len;
 
 				offset = ubuf_size(u);
-				oclen = 0;
+				id_len = 0;
 				ubuf_append(u, &oclen, sizeof (uint8_t));
 			} else {
 				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
+				id_len++;
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		if (id_len == 0 || id_len > UINT8_MAX) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = (uint8_t)id_len;
+		val_len = ubuf_size(u) - val_len_offset - sizeof(val_len);
 
 		break;
 	}
-- 
2.43.0


From dc9b6415a166c59504e8e9600e6a27e08acb4dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 28/79] fix: SvcParam ech text longer than 255 characters is
 refused

The library prints such values itself, and an ECHConfigList commonly needs
more.
---
 wdns/str_to_rdata_ubuf.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 8fefac6..5ee9b98 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -238,9 +238,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
-			return (wdns_res_parse_error);
-		}
 		val_len = base64_str_to_ubuf(tok, tok_len, u);
 		break;
 
-- 
2.43.0


From 286d56e6b347b6ddb7bb84c75b8a6bb7c8ed3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 29/79] fix: length of a SvcParam value read from text wraps
 around

It was taken modulo 65536.
---
 wdns/str_to_rdata_ubuf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 5ee9b98..46fbc7c 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -343,6 +343,9 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	/*
 	 * Set the correct length for the SvcParamValue.
 	 */
+	if (ubuf_size(u) - val_len_offset - sizeof(val_len) > UINT16_MAX) {
+		return (wdns_res_parse_error);
+	}
 	val_len = htons(val_len);
 	(void) memcpy(&ubuf_data(u)[val_len_offset], &val_len,
 	    sizeof (val_len));
-- 
2.43.0


From 25ae8dad27b1324d1857ef9888b8424eec6ba4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 30/79] fix: rdata text with type covered TYPE0 is refused

The library prints it itself, and reads it in a type bitmap.
---
 wdns/str_to_rdata_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 46fbc7c..263a4f0 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -937,9 +937,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				s_rrtype = strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
+			bool is_type0 = (strcasecmp(s_rrtype, "TYPE0") == 0);
 			free(s_rrtype);
 
-			if (my_rrtype > 0) {
+			if (my_rrtype > 0 || is_type0) {
 				ubuf_append(u, (const uint8_t*)&my_rrtype, sizeof(my_rrtype));
 			} else {
 				res = wdns_res_parse_error;
-- 
2.43.0


From 5fcd519ca29593333a43aef78a2737d9da0ce319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 31/79] fix: rdata text after the last field is ignored

"1.2.3.4 5.6.7.8" was read as the A record 1.2.3.4. A base64 field advanced by
its decoded size only.
---
 wdns/str_to_rdata_ubuf.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 263a4f0..6e58d63 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -506,7 +506,8 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			break;
 
 		case rdf_bytes_b64: {
-			str += base64_str_to_ubuf(str, strlen(str), u);
+			base64_str_to_ubuf(str, strlen(str), u);
+			str += strlen(str);
 			break;
 		}
 
@@ -514,11 +515,12 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			size_t str_len = strlen(str);
 
 			if (str_len >= 3 && str[0] == '"' && str[str_len - 1] == '"') {
-				if (rdata_from_str_string((const uint8_t *)str, u) == 0) {
+				size_t n = rdata_from_str_string((const uint8_t *)str, u);
+				if (n == 0) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
-				str += str_len;
+				str += n;
 			} else {
 				res = wdns_res_parse_error;
 				goto err;
@@ -1052,6 +1054,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				start = end;
 			}
 
+			str = eol;
 			break;
 		}
 
@@ -1148,6 +1151,15 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		} /* switch */
 	}
 
+	/* nothing may follow the last field */
+	while (str != NULL && isspace(*str)) {
+		str++;
+	}
+	if (str != NULL && *str != '\0') {
+		res = wdns_res_parse_error;
+		goto err;
+	}
+
 	return wdns_res_success;
 
 err:
-- 
2.43.0


From 723e5b2acb27fce6edd760eed013474a5b4abbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 32/79] fix: rdata text for more than 65535 octets is accepted

No record can hold it: rdata lengths are 16-bit numbers.
---
 wdns/str_to_rdata_ubuf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 6e58d63..038bd5f 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -1160,6 +1160,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		goto err;
 	}
 
+	if (ubuf_size(u) - u_orig_size > UINT16_MAX) {
+		res = wdns_res_parse_error;
+		goto err;
+	}
+
 	return wdns_res_success;
 
 err:
-- 
2.43.0


From 8cd3c498fb5f12c2b45a9008931040827566355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 33/79] fix: TYPEn and CLASSn accept a sign or blanks before
 the number

---
 wdns/gen_rrclass_to_str | 2 ++
 wdns/gen_rrtype_to_str  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wdns/gen_rrclass_to_str b/wdns/gen_rrclass_to_str
index 8f1953a..6008d94 100755
--- a/wdns/gen_rrclass_to_str
+++ b/wdns/gen_rrclass_to_str
@@ -99,6 +99,8 @@ convert_generic_rrclass(const char *s, long int *val) {
 
     s += 5; /* skip leading "CLASS" */
 
+    if (*s < '0' || *s > '9')
+        return (false);
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
diff --git a/wdns/gen_rrtype_to_str b/wdns/gen_rrtype_to_str
index b005a20..9a3df53 100755
--- a/wdns/gen_rrtype_to_str
+++ b/wdns/gen_rrtype_to_str
@@ -97,6 +97,8 @@ convert_generic_rrtype(const char *s, long int *val) {
 
     s += 4; /* skip leading "TYPE" */
 
+    if (*s < '0' || *s > '9')
+        return (false);
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
-- 
2.43.0


From a062e9830d8e9ad182816e9518a047aa02937fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:02 +0000
Subject: [PATCH 34/79] fix: SvcParam ech text without any base64 digit is
 accepted

The rdata it gave prints as "ech=", which is refused.
---
 wdns/str_to_rdata_ubuf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 038bd5f..6a7bd25 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -239,6 +239,9 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 
 		tok_len = strlen(tok);
 		val_len = base64_str_to_ubuf(tok, tok_len, u);
+		if (val_len == 0) {
+			return (wdns_res_parse_error);
+		}
 		break;
 
 	/*
-- 
2.43.0


From a599b7cf950cfe53cbd97e915e4b497111155053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 35/79] fix: heap_get() on an empty heap

The index limit wraps around, and any index passes the check.
---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index 1d8f7ee..a28cdcf 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -146,7 +146,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 1c398d18917ae7f5e9858afe86e8f73fa6d486ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 36/79] fix: signed shift overflow in varint_decode32()

Every value from 2^31 on hits it.
---
 libmy/varint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/varint.c b/libmy/varint.c
index 6969274..c1c3d68 100644
--- a/libmy/varint.c
+++ b/libmy/varint.c
@@ -154,7 +154,7 @@ varint_decode32(const uint8_t *data, uint32_t *value)
 			if (len > 3) {
 				val |= ((data[3] & 0x7f) << 21);
 				if (len > 4)
-					val |= (data[4] << 28);
+					val |= ((uint32_t) data[4] << 28);
 			}
 		}
 	}
-- 
2.43.0


From ee7f8db4da3be1e181861ab087f0a1dc0eff94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 37/79] fix: undefined shifts for prefix lengths 0 and 64 in
 address arithmetic

ip4_lower() and ip4_upper() shifted by 32 for prefix length 0, which on
x86 leaves the address as it is; ip6_lower() and ip6_upper() shifted by 64.
---
 libmy/ip_arith.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..b740cd5 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(prefix_len > 0 ? UINT32_MAX << (32 - prefix_len) : 0);
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(prefix_len > 0 ? ~(UINT32_MAX << (32 - prefix_len)) : UINT32_MAX);
 	memcpy(out, &addr, 4);
 }
 
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(prefix_len > 0 ? UINT64_MAX << (64 - prefix_len) : 0);
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(prefix_len > 0 ? UINT64_MAX << (64 - prefix_len) : 0);
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(prefix_len > 0 ? ~(UINT64_MAX << (64 - prefix_len)) : UINT64_MAX);
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(prefix_len > 0 ? ~(UINT64_MAX << (64 - prefix_len)) : UINT64_MAX);
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 7b050591d34fbc363ecf47c510c70e9eb045cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 38/79] fix: misaligned loads in my_crc32c_sse42()

---
 libmy/crc32c-sse42.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libmy/crc32c-sse42.c b/libmy/crc32c-sse42.c
index a37fe34..0471f3f 100644
--- a/libmy/crc32c-sse42.c
+++ b/libmy/crc32c-sse42.c
@@ -73,6 +73,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
+#include <string.h>
 
 #define CPUID_FEATURES		(1)
 #define SSE42_FEATURE_BIT	(1 << 20)
@@ -124,9 +125,13 @@ my_crc32c_sse42(const uint8_t *buf, size_t len)
 {
 	const uint8_t *p = buf;
 	uint64_t crc64bit = 0xFFFFFFFF;
+	uint64_t v64;
+	uint32_t v32;
+	uint16_t v16;
 
 	for (size_t i = 0; i < len / sizeof(uint64_t); i++) {
-		crc64bit = my_asm_crc32_u64(crc64bit, *(uint64_t *) p);
+		memcpy(&v64, p, sizeof(v64));
+		crc64bit = my_asm_crc32_u64(crc64bit, v64);
 		p += sizeof(uint64_t);
 	}
 
@@ -136,18 +141,22 @@ my_crc32c_sse42(const uint8_t *buf, size_t len)
 	case 7:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p++);
 	case 6:
-		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
+		memcpy(&v16, p, sizeof(v16));
+		crc32bit = my_asm_crc32_u16(crc32bit, v16);
 		p += 2;
 	case 4:
-		crc32bit = my_asm_crc32_u32(crc32bit, *(uint32_t *) p);
+		memcpy(&v32, p, sizeof(v32));
+		crc32bit = my_asm_crc32_u32(crc32bit, v32);
 		break;
 	case 3:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p++);
 	case 2:
-		crc32bit = my_asm_crc32_u16(crc32bit, *(uint16_t *) p);
+		memcpy(&v16, p, sizeof(v16));
+		crc32bit = my_asm_crc32_u16(crc32bit, v16);
 		break;
 	case 5:
-		crc32bit = my_asm_crc32_u32(crc32bit, *(uint32_t *) p);
+		memcpy(&v32, p, sizeof(v32));
+		crc32bit = my_asm_crc32_u32(crc32bit, v32);
 		p += 4;
 	case 1:
 		crc32bit = my_asm_crc32_u8(crc32bit, *p);
-- 
2.43.0


From f61e011aaf17ea0c0b550c6dce7fbeac248f15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 39/79] fix: base32_encode() writes eight characters for no
 data

---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 3b057b24196a37240b2e17425ece195bfeb20393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 40/79] fix: string_replace() of an empty string never ends

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From 8314f870ab7ca5a7e6fe8f4e13370b85d6034ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 41/79] fix: misaligned structure in my_queue_mutex_init()

---
 libmy/my_queue_mutex.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmy/my_queue_mutex.c b/libmy/my_queue_mutex.c
index b8572ec..a52e3b4 100644
--- a/libmy/my_queue_mutex.c
+++ b/libmy/my_queue_mutex.c
@@ -60,11 +60,15 @@ my_queue_mutex_init(unsigned num_elems, unsigned sizeof_elem)
 	struct my_queue *q;
 	if (num_elems < 2 || ((num_elems - 1) & num_elems) != 0)
 		return (NULL);
-	q = my_calloc(1, sizeof(*q));
+	void *mem = NULL;
+	int rc = posix_memalign(&mem, 64, sizeof(*q));
+	assert(rc == 0);
+	q = mem;
+	memset(q, 0, sizeof(*q));
 	q->num_elems = num_elems;
 	q->sizeof_elem = sizeof_elem;
 	q->data = my_calloc(q->num_elems, q->sizeof_elem);
-	int rc = pthread_mutex_init(&q->lock, NULL);
+	rc = pthread_mutex_init(&q->lock, NULL);
 	assert(rc == 0);
 	return (q);
 }
-- 
2.43.0


From cdd3b848de9a7299763132e022de0104876697bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 42/79] fix: my_fileset loads and unloads a file named twice in
 the set

---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..7bc651e 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 0797e687e5e21c5af2863c3d0fc807dd7dbe45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 43/79] fix: my_rate stops limiting or drifts away from its
 rate after adjustments

---
 libmy/my_rate.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..b86658c 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	unsigned	rate, freq;
+	double		adj_rate;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double ratio, actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +76,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -87,8 +87,14 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	/* calculate a new, adjusted rate based on this ratio */
 	r->adj_rate *= ratio;
 
+	/* keep the adjusted rate near the nominal rate */
+	if (r->adj_rate < r->rate / 2.0)
+		r->adj_rate = r->rate / 2.0;
+	if (r->adj_rate > r->rate * 2.0)
+		r->adj_rate = r->rate * 2.0;
+
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From ffa1f97c3baae7e3798c1912076984dbfa75a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 44/79] fix: my_timespec_from_double overflows an int for 2^31
 seconds and more

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..d7e8603 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ((double) ts->tv_sec)) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From 892761f111a57b751489df3c0a276c8c01448d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:36 +0000
Subject: [PATCH 45/79] fix: atomic64 functions truncate their operand or
 result to an int

---
 libmy/atomic_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 10b0377906cc39c438d13264728651935f36b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 46/79] fix: argv_process_no_env() writes errors to an invalid
 stream

Only argv_process() replaces the placeholder of argv_error_stream by stderr.
---
 libmy/argv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 16b1c84..2ea9eb7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3126,6 +3126,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   argv_t	**queue_list = NULL;
   int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
   
+  if (! enabled_b) {
+    argv_startup();
+  }
+  
   if (args == NULL) {
     args = empty;
   }
-- 
2.43.0


From cf32d664a9b03aaa58728e26340aa54f53394a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 47/79] fix: check_or() reads past the end of the argument
 table

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 2ea9eb7..d5adf0b 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From faaeaaaa3e5819ace4e0bd39315302f45e1ce073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:21 +0000
Subject: [PATCH 48/79] fix: a negative number that follows --argv-file
 dereferences NULL

---
 libmy/argv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index d5adf0b..0664ae4 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2711,10 +2711,11 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    match_p = queue_list[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
-	     * find out that we can use it below
+	     * find out that we can use it below.  match_p is NULL if it
+	     * is the file argument that is waiting for its value.
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0


From 40117d95c9273351dd555127e51049ab29de9978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 49/79] fix: the queue of options that wait for a value
 overflows

It had room for one option per argument on the command line and in the
environment, but an argument may hold many short options (-aaaa), and
arguments read from a file were not counted at all.
---
 libmy/argv.c | 113 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 75 insertions(+), 38 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0664ae4..469e306 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2256,8 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	  okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2270,58 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void queue_add
+ *
+ * DESCRIPTION:
+ *
+ * Add an option that needs a value to our option queue.  A single
+ * argument may hold any number of them.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array or NULL for the file
+ * argument.
+ *
+ * queue_list_p <-> Our option queue for storing options to arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if there is not
+ * enough memory.
+ */
+static	void	queue_add(argv_t *match_p, argv_t ***queue_list_p,
+			  int *queue_head_p, int *okay_bp)
+{
+  argv_t	**new_list;
+  
+  if (*queue_head_p % ARG_MALLOC_INCR == 0) {
+    new_list = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				  (*queue_head_p + ARG_MALLOC_INCR));
+    if (new_list == NULL) {
+      *okay_bp = ARGV_FALSE;
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      if (argv_interactive) {
+	(void)exit(argv_error_code);
+      }
+      return;
+    }
+    *queue_list_p = new_list;
+  }
+  
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2344,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2353,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p,
+		       int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2410,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    queue_add(match_p, queue_list_p, queue_head_p, okay_bp);
   }
 }
 
@@ -2421,7 +2474,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2486,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2578,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2589,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  queue_add(NULL, queue_list_p, queue_head_p, okay_bp);
 	}
 	continue;
       }
@@ -2708,7 +2760,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below.  match_p is NULL if it
@@ -2742,7 +2794,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2752,12 +2804,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3125,7 +3177,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (! enabled_b) {
     argv_startup();
@@ -3191,22 +3243,9 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3214,12 +3253,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3238,9 +3277,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 610ae3ed6833a868fca6f0ba6dfc46fdfbab2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 50/79] fix: argv_process() leaks the arguments from the
 environment

They were not freed if environment processing is off, and not if the
variable holds nothing but blanks.
---
 libmy/argv.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 469e306..848e77e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3247,9 +3247,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* do the external args */
@@ -3260,9 +3257,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* make sure the XOR and MAND args and argument-options are okay */
@@ -3278,6 +3272,8 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   
   /* if we allocated the space then free it */
   free(queue_list);
+  free(env_vect_p);
+  free(environ_p);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 2d7251b9c4473e4b8fdc8001e9ea70ec2381b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 51/79] fix: argv_process() modifies the arguments it is given

It is documented not to. An argument with a value (--name=value) was cut
at the equals sign for good, so that argv_copy_args() lost the values.
---
 libmy/argv.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 848e77e..849999e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2497,6 +2497,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
   /* run throught rest of arguments */
   for (arg_p = argv; arg_p < argv + arg_c; arg_p++) {
     
+    /* put back the equals sign punched out of the previous argument */
+    if (close_p != NULL) {
+      *(close_p - 1) = ARG_EQUALS;
+      close_p = NULL;
+    }
+    
     /* have we reached the LAST_ARG marker? */
     if (strcmp(LAST_ARG, *arg_p) == 0) {
       if (last_arg_b) {
@@ -2862,6 +2868,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     *okay_bp = ARGV_FALSE;
   }
   
+  if (close_p != NULL) {
+    *(close_p - 1) = ARG_EQUALS;
+  }
+  
   if (unwant_c > 0 && argv_error_stream != NULL) {
     (void)fprintf(argv_error_stream,
 		  "%s: %s, %d unwanted additional argument%s\n",
-- 
2.43.0


From d63ccdf865d396d355386573d8fdf75d72f0678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 52/79] fix: argv_cleanup() frees strings which argv_process()
 did not allocate

A string option that was specified without its value still has the
program's own default, which is not to be freed. And the string of an
option which was specified twice was leaked.
---
 libmy/argv.c     | 42 +++++++++++++++++++++---------------------
 libmy/argv_loc.h |  1 +
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 849999e..0dc5643 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1042,7 +1042,7 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
   for (arg_p = args; arg_p < args + arg_n; arg_p++) {
     
     /* clear internal flags */
-    arg_p->ar_type &= ~ARGV_FLAG_USED;
+    arg_p->ar_type &= ~(ARGV_FLAG_USED | ARGV_FLAG_ALLOC);
     
     /* do we have a mandatory-array? */
     if (arg_p->ar_short_arg == ARGV_MAND) {
@@ -1192,13 +1192,12 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
  *
  * arg - Argument string.
  *
- * var - Pointer to our variable.
- *
- * type - Type of the variable.
+ * match_p - Entry in our argv_t structure array whose variable is set.
  */
-static	int	string_to_value(const char *arg, ARGV_PNT var,
-				const unsigned int type)
+static	int	string_to_value(const char *arg, argv_t *match_p)
 {
+  ARGV_PNT	var = match_p->ar_variable;
+  const unsigned int	type = match_p->ar_type;
   argv_array_t	*arr_p;
   argv_type_t	*type_p;
   unsigned int	val_type = ARGV_TYPE(type), size = 0;
@@ -1296,10 +1295,17 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_CHAR_P:
+    if (type & ARGV_FLAG_ALLOC) {
+      free(*(char **)var);
+    }
     *(char **)var = string_copy((char *)arg);
     if (*(char **)var == NULL) {
+      match_p->ar_type &= ~ARGV_FLAG_ALLOC;
       return ERROR;
     }
+    if (! (type & ARGV_FLAG_ARRAY)) {
+      match_p->ar_type |= ARGV_FLAG_ALLOC;
+    }
     break;
     
   case ARGV_SHORT:
@@ -2392,20 +2398,17 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
    * else queue it for needing a value argument.
    */
   if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (! HAS_ARG(match_p->ar_type)) {
-    if (string_to_value(NULL, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(NULL, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
   else if (argv_close_enable_b && close_p != NULL) {
-    if (string_to_value(close_p, match_p->ar_variable,
-			match_p->ar_type) != NOERROR) {
+    if (string_to_value(close_p, match_p) != NOERROR) {
       *okay_bp = ARGV_FALSE;
     }
   }
@@ -2780,7 +2783,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p->ar_variable, match_p->ar_type);
+              string_to_value(*arg_p, match_p);
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
@@ -2819,8 +2822,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 		  okay_bp);
       }
       else {
-	if (string_to_value(*arg_p, match_p->ar_variable,
-			    match_p->ar_type) != NOERROR) {
+	if (string_to_value(*arg_p, match_p) != NOERROR) {
 	  *okay_bp = ARGV_FALSE;
 	}
       }
@@ -2837,8 +2839,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another mand. arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -2855,8 +2856,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     }
     if  (grid_p->ar_short_arg != ARGV_LAST) {
       /* absorb another maybe arg */
-      if (string_to_value(*arg_p, grid_p->ar_variable,
-			  grid_p->ar_type) != NOERROR) {
+      if (string_to_value(*arg_p, grid_p) != NOERROR) {
 	*okay_bp = ARGV_FALSE;
       }
       grid_p->ar_type |= ARGV_FLAG_USED;
@@ -3546,9 +3546,9 @@ void	argv_cleanup(const argv_t *args)
     }
     
     /* handle individual charps */
-    if (arg_p->ar_type & ARGV_FLAG_USED
-	&& ARGV_TYPE(arg_p->ar_type) == ARGV_CHAR_P) {
+    if (arg_p->ar_type & ARGV_FLAG_ALLOC) {
       free(*(char **)arg_p->ar_variable);
+      *(char **)arg_p->ar_variable = NULL;
       continue;
     }
   }
diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index 6ccf5dc..2f18d1b 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -79,6 +79,7 @@ extern "C" {
 /* internal flags set in the ar_type field */
 /* NOTE: other external flags defined in argv.h */
 #define ARGV_FLAG_USED		(1 << 12)	/* if arg has been specified */
+#define ARGV_FLAG_ALLOC		(1 << 11)	/* if we allocated the string */
 
 /* error messages */
 #define USAGE_ERROR_NAME	"usage problem"
-- 
2.43.0


From ac4ad061fef2a0e6634642371ab497c82d3adf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 53/79] fix: binary, octal and hexadecimal arguments overflow
 an int

Also the top bit of a negative number was tested by shifting 1 into the
sign of an int.
---
 libmy/argv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0dc5643..8f01a87 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -194,7 +194,7 @@ static	void	argv_startup(void)
  */
 static	int	btoi(const char *str)
 {
-  int		ret = 0;
+  unsigned int	ret = 0;
   
   /* strip off spaces */
   for (; isspace((unsigned char) *str); str++) {
@@ -225,7 +225,7 @@ static	int	btoi(const char *str)
  */
 static	int	otoi(const char *str)
 {
-  int		ret = 0;
+  unsigned int	ret = 0;
   
   /* strip off spaces */
   for (; isspace((unsigned char) *str); str++) {
@@ -257,7 +257,7 @@ static	int	otoi(const char *str)
  */
 static	int	htoi(const char *str)
 {
-  int		ret = 0;
+  unsigned int	ret = 0;
   
   /* strip off spaces */
   for (; isspace((unsigned char) *str); str++) {
@@ -1585,7 +1585,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
 	*bin_p++ = 'b';
 	
 	for (bit_c = sizeof(int) * BITS_IN_BYTE - 1; bit_c >= 0; bit_c--) {
-	  bit = *(int *)var & (1 << bit_c);
+	  bit = (*(unsigned int *)var >> bit_c) & 1;
 	  
 	  if (bit == 0) {
 	    if (first_b) {
-- 
2.43.0


From 23bf4852aa569074d707c4025f7e4a7acaa1920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 54/79] fix: ARGV_U_LONG and ARGV_U_SIZE cut large values;
 sizes overflow a long

---
 libmy/argv.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 8f01a87..27162cd 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1329,7 +1329,7 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1365,10 +1365,10 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
   case ARGV_SIZE:
     {
       const char	*arg_p;
-      long		val;
+      unsigned long	val;
       
       /* take initial integer point */
-      val = atol(arg);
+      val = (unsigned long)atol(arg);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
@@ -1386,7 +1386,7 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
       else if (*arg_p == 'g' || *arg_p == 'G') {
 	val *= 1024 * 1024 * 1024;
       }
-      *(long *)var = val;
+      *(long *)var = (long)val;
     }
     break;
     
@@ -1396,7 +1396,7 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
@@ -1678,18 +1678,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From f545cd7592896502680e280bb2f65d176e31c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 55/79] fix: argv_value_string() cuts the escapes of special
 characters

The size given to snprintf did not include the terminator, so the last
character of each escape was replaced by it.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 27162cd..7419307 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -482,7 +482,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 2 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 2), "\\%c", *(spec_p - 1));
+      LOC_SNPRINTF(SNP_ARG(out_p, 3), "\\%c", *(spec_p - 1));
       out_p += 2;
       continue;
     }
@@ -499,7 +499,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 4 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 4), "\\%03o", *buf_p);
+      LOC_SNPRINTF(SNP_ARG(out_p, 5), "\\%03o", *buf_p);
       out_p += 4;
     }
   }
-- 
2.43.0


From b1c0f42bf8c04e652b79ea435961658cecfb249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 56/79] fix: argv_value_string() does not terminate character
 and string values

---
 libmy/argv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 7419307..c497d19 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -426,7 +426,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
  *
  * Translates a buffer of bytes into its printable version.
  *
- * NOTE: it does _not_ add a \0 at the end of OUT.
+ * NOTE: it adds a \0 at the end of OUT which is not counted.
  *
  * RETURNS:
  *
@@ -504,6 +504,9 @@ static	int	expand_buf(const void *buf, const int buf_size,
     }
   }
   
+  if (out_size > 0) {
+    *out_p = '\0';
+  }
   return out_p - out;
 }
 
-- 
2.43.0


From 59fbf20e24765fb3c5ef16162d4e1b3643a7b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 57/79] fix: argv_value_string() ignores the size of the buffer
 for zero values

---
 libmy/argv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index c497d19..9dee453 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1631,7 +1631,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_HEX:
     if (*(int *)var == 0) {
-      (void)strcpy(buf, "0");
+      (void)strncpy(buf, "0", buf_size);
+      buf[buf_size - 1] = '\0';
     }
     else {
       LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%#x (%d)",
@@ -1650,7 +1651,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       long	morf, val = *(long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	(void)strncpy(buf, "0", buf_size);
+	buf[buf_size - 1] = '\0';
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
@@ -1677,7 +1679,8 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       unsigned long	morf, val = *(unsigned long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	(void)strncpy(buf, "0", buf_size);
+	buf[buf_size - 1] = '\0';
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-- 
2.43.0


From 39e7d32d04993ea9dee4b0ac9f11b4792a67989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 58/79] fix: argv_long_was_used() compares the addresses of the
 names

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 9dee453..d0386c1 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3462,7 +3462,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From a1b2fafc68a95bd99c423336eb540c775e58c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 59/79] fix: array entries are left uninitialised by text which
 is no number

---
 libmy/argv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index d0386c1..0690f33 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1246,6 +1246,7 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
     }
     
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
+    memset(var, 0, size);
     arr_p->aa_entry_n++;
   }
   
-- 
2.43.0


From 399fd8130fe942e1023a0320afd18cf1bafbd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 60/79] fix: an array argument without a variable dereferences
 NULL

The check for the variable comes right after.
---
 libmy/argv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0690f33..22b960a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1123,7 +1123,9 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
 	}
 	return ERROR;
       }
-      arrp->aa_entry_n = 0;
+      if (arrp != NULL) {
+	arrp->aa_entry_n = 0;
+      }
     }
     
     /* verify variable pointer */
-- 
2.43.0


From 78b6a78ce8a67c846f4f4f63611659099079c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 61/79] fix: argv_process() without a program name dereferences
 NULL

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 22b960a..0c25e08 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3238,8 +3238,8 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   {
     const char	*tmp_p;
     
-    prog_p = *argv;
-    for (tmp_p = *argv; *tmp_p != '\0'; tmp_p++) {
+    prog_p = (arg_n > 0 && *argv != NULL ? *argv : "");
+    for (tmp_p = prog_p; *tmp_p != '\0'; tmp_p++) {
       if (*tmp_p == '/') {
 	prog_p = tmp_p + 1;
       }
-- 
2.43.0


From ec7d3252e405db75ef6241c9015e52b33e974d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 62/79] fix: argv_type_info() reports the size of an int for
 negative flags

---
 libmy/argv_loc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index 2f18d1b..87aa978 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -166,7 +166,7 @@ typedef struct {
 static	argv_type_t	argv_types[] = {
   { ARGV_BOOL,		"flag",			sizeof(char),
     "if option used, set variable to 1" },
-  { ARGV_BOOL_NEG,	"negative flag",	sizeof(int),
+  { ARGV_BOOL_NEG,	"negative flag",	sizeof(char),
     "if option used, set variable to 0" },
   { ARGV_BOOL_ARG,	"flag with arg",	sizeof(char),
     "like boolean but with an argument, true/yes/1 sets var to 1" },
-- 
2.43.0


From 560eb8fd7a05d3b153bbef2d8e33dd5e81cf1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:47 +0000
Subject: [PATCH 63/79] fix: argv_cleanup() after a refused table dereferences
 NULL

---
 libmy/argv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 0c25e08..7a2969c 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3541,6 +3541,11 @@ void	argv_cleanup(const argv_t *args)
     if (arg_p->ar_type & ARGV_FLAG_ARRAY) {
       argv_array_t	*arr_p = (argv_array_t *)arg_p->ar_variable;
       
+      /* the table may have been refused because of this */
+      if (arr_p == NULL) {
+	continue;
+      }
+      
       /* free any entries */
       if (arr_p->aa_entry_n > 0) {
 	if (ARGV_TYPE(arg_p->ar_type) == ARGV_CHAR_P) {
-- 
2.43.0


From 8fa5815de6f98151e70816713ac486bab5b904f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 64/79] fix: zonefile_init_fname() leaks when the file cannot
 be opened

The structure allocated beforehand was not released.
---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..cb50d79 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -83,8 +83,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		free(z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 606892420cf6ac2655cc021a26d8192127a724e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 65/79] fix: zonefile_init_fname() never returns for a file
 without records

At the end of the file, or when it cannot be read, ldns_rr_new_frm_fp_l()
keeps reporting empty lines.  Stop there.
---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index cb50d79..0c69896 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -30,6 +30,10 @@ read_soa(struct zonefile *z)
 	ldns_status status;
 
 	for (;;) {
+		if (feof(z->fp) || ferror(z->fp)) {
+			status = LDNS_STATUS_ERR;
+			goto out;
+		}
 		status = ldns_rr_new_frm_fp_l(&rr, z->fp, &z->ttl, &z->origin, &z->prev, NULL);
 		switch (status) {
 		case LDNS_STATUS_OK:
-- 
2.43.0


From 5d00a9e15392d25e4a41f778ac120a89768255d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 66/79] fix: zonefile_init_fname() drops an $ORIGIN given
 before the SOA

The owner of the SOA replaced it (and it leaked).  The owner is the origin
of a file which does not set one, as in ldns_zone_new_frm_fp().
---
 libmy/zonefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 0c69896..2943601 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,7 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
-	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin == NULL)
+		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
 }
-- 
2.43.0


From e01eb2ca7aec784f9be1924d6949fd5ccb7a00b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 67/79] fix: zonefile_get_serial() dereferences NULL once the
 SOA has been read out

Remember the serial number.
---
 libmy/zonefile.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 2943601..8d9d672 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -21,12 +21,14 @@ struct zonefile {
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
 	size_t		count;
+	uint32_t	serial;
 };
 
 static ldns_status
 read_soa(struct zonefile *z)
 {
 	ldns_rr *rr;
+	ldns_rdf *rdf;
 	ldns_status status;
 
 	for (;;) {
@@ -59,7 +61,11 @@ out:
 		return (LDNS_STATUS_ERR);
 	}
 
+	rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+
 	z->count = 1;
+	z->serial = ldns_rdf2native_int32(rdf);
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
 	if (z->origin == NULL)
 		z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
@@ -138,9 +144,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 3a78e709a11cbe007ae7d1b6799ba7fdfcfae772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 68/79] fix: zonefile_init_fname() lets the shell interpret the
 name of a .gz file

Quote it.
---
 libmy/zonefile.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 8d9d672..f321d7f 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -85,8 +85,14 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat < '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add(u, '\'');
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 0967a756ecca5033cde5608a598e2128d25678e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 69/79] fix: zonefile_read() never returns after a read error

The end of the file is not reached then, and ldns_rr_new_frm_fp_l() keeps
reporting empty lines.
---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index f321d7f..271cf90 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -173,6 +173,10 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		return (LDNS_STATUS_OK);
 	}
 	for (;;) {
+		if (ferror(z->fp)) {
+			z->valid = false;
+			return (LDNS_STATUS_ERR);
+		}
 		if (feof(z->fp)) {
 			*out = NULL;
 			z->eof = true;
-- 
2.43.0


From 88f626259f0b74088831f9d0cdbf7d76d3c35f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:47 +0000
Subject: [PATCH 70/79] fix: zonefile_read() takes a damaged .gz file for a
 complete zone

When decompression fails, the end of the output is not the end of the zone.
gzip exits with 2 for mere warnings.
---
 libmy/zonefile.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 271cf90..7912aae 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -4,6 +4,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <sys/wait.h>
+
 #include <ldns/ldns.h>
 
 #include "my_alloc.h"
@@ -178,6 +180,15 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			return (LDNS_STATUS_ERR);
 		}
 		if (feof(z->fp)) {
+			if (z->is_pipe) {
+				int rc = pclose(z->fp);
+
+				z->fp = NULL;
+				if (rc != 0 && !(WIFEXITED(rc) && WEXITSTATUS(rc) == 2)) {
+					z->valid = false;
+					return (LDNS_STATUS_ERR);
+				}
+			}
 			*out = NULL;
 			z->eof = true;
 			return (LDNS_STATUS_OK);
-- 
2.43.0


From f350737d838a13d5ae9267e1f5bae131f3b28d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 71/79] fix: an ARGV_INCR option overflows its int

`-v=2147483647 -v' incremented it past INT_MAX.
---
 libmy/argv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 7a2969c..20bd5e2 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -22,6 +22,7 @@
  */
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1361,7 +1362,9 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
   case ARGV_INCR:
     /* if no close argument then increment else set the value */
     if (arg == NULL) {
-      (*(int *)var)++;
+      if (*(int *)var < INT_MAX) {
+	(*(int *)var)++;
+      }
     }
     else {
       *(int *)var = atoi(arg);
-- 
2.43.0


From 64916f80e08249bd2ee54997d05b3d148e9b5259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 72/79] fix: argv_process() ignores that there is no memory for
 the environment's arguments

The message about it was printed even without a stream to print to, and the
parse went on, and succeeded, without these arguments.
---
 libmy/argv.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 20bd5e2..e46acbb 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -354,7 +354,7 @@ static	char	*string_copy(const char *str)
  * tok - List of token characters to look for in the string.
  *
  * num_tok_p - Pointer to an integer which will be set to the number
- * of tokens found in the string.
+ * of tokens found in the string or to -1 if there is not enough memory.
  */
 static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
 {
@@ -365,6 +365,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
   /* count the tokens */
   tmp = string_copy(str);
   if (tmp == NULL) {
+    *num_tok_p = -1;
     return NULL;
   }
   
@@ -400,6 +401,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
     if (argv_interactive) {
       (void)exit(argv_error_code);
     }
+    *num_tok_p = -1;
     return NULL;
   }
   
@@ -2914,7 +2916,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
  * string that will need to be freed after the env vector is processed.
  *
  * env_np - Pointer to an integer which is set with the number
- * of environ arguments.
+ * of environ arguments or with -1 if there is not enough memory.
  */
 static	char	**preprocess_env_args(char **environ_pp, int *env_np)
 {
@@ -2941,9 +2943,12 @@ static	char	**preprocess_env_args(char **environ_pp, int *env_np)
   /* break the list into tokens and do the list */
   environ_p = string_copy(environ_p);
   if (environ_p == NULL) {
-    (void)fprintf(argv_error_stream,
-		  "%s: problems allocating memory for environmental arguments\n",
-		  argv_program);
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: problems allocating memory for environmental arguments\n",
+		    argv_program);
+    }
+    *env_np = -1;
     return NULL;
   }
   *environ_pp = environ_p;
@@ -3265,6 +3270,9 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
+  if (argv_process_env_b && env_n < 0) {
+    okay_b = ARGV_FALSE;
+  }
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
-- 
2.43.0


From f081bc561c81a391e51a8400c34e0e16327580e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:30 +0000
Subject: [PATCH 73/79] fix: argv_process() loses an array it has no memory to
 grow

The entries were overwritten with NULL while their number stayed, for
argv_cleanup() to read through.
---
 libmy/argv.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index e46acbb..876754d 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1229,16 +1229,17 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
   if (type & ARGV_FLAG_ARRAY) {
     arr_p = (argv_array_t *)var;
     
+    void	*entries = arr_p->aa_entries;
+    
     if (arr_p->aa_entry_n == 0) {
-      arr_p->aa_entries = (char *)malloc(ARRAY_INCR *size);
+      entries = malloc(ARRAY_INCR *size);
     }
     else if (arr_p->aa_entry_n % ARRAY_INCR == 0) {
-      arr_p->aa_entries =
-	(char *)realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *
+      entries = realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *
 			size);
     }
     
-    if (arr_p->aa_entries == NULL) {
+    if (entries == NULL) {
       if (argv_error_stream != NULL) {
 	(void)fprintf(argv_error_stream,
 		      "%s: memory error during argument processing\n",
@@ -1249,6 +1250,7 @@ static	int	string_to_value(const char *arg, argv_t *match_p)
       }
       return ERROR;
     }
+    arr_p->aa_entries = entries;
     
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
     memset(var, 0, size);
-- 
2.43.0


From 8dd459cd7e8f570524c1c2c87a6fc1e7359992f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 74/79] fix: an argument file is left open when there is no
 memory for its lines

The lines read so far were lost as well.
---
 libmy/argv.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 876754d..2c14d1f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2187,7 +2187,7 @@ static	void	file_args(const char *path, argv_t *grid,
 			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
-  char	**argv, **argv_p;
+  char	**argv, **argv_p, **new_argv;
   int	arg_c, max;
   FILE	*infile;
   char	line[FILE_LINE_SIZE], *line_p;
@@ -2248,7 +2248,7 @@ static	void	file_args(const char *path, argv_t *grid,
     *argv_p = string_copy(line);
     if (*argv_p == NULL) {
       *okay_bp = ARGV_FALSE;
-      return;
+      goto out;
     }
     
     argv_p++;
@@ -2257,12 +2257,9 @@ static	void	file_args(const char *path, argv_t *grid,
     /* do we need to grow the array of pointers? */
     if (arg_c == max) {
       max += ARRAY_INCR;
-      argv = realloc(argv, sizeof(char *) * max);
-      if (argv == NULL) {
+      new_argv = realloc(argv, sizeof(char *) * max);
+      if (new_argv == NULL) {
 	*okay_bp = ARGV_FALSE;
-	if (infile != stdin) {
-	  (void)fclose(infile);
-	}
 	if (argv_error_stream != NULL) {
 	  (void)fprintf(argv_error_stream,
 			"%s: memory error during argument processing\n",
@@ -2271,8 +2268,9 @@ static	void	file_args(const char *path, argv_t *grid,
 	if (argv_interactive) {
 	  (void)exit(argv_error_code);
 	}
-	return;
+	goto out;
       }
+      argv = new_argv;
       argv_p = argv + arg_c;
     }
   }
@@ -2282,6 +2280,7 @@ static	void	file_args(const char *path, argv_t *grid,
 	  okay_bp);
   
   /* now free up the list */
+out:
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
     free(*argv_p);
   }
-- 
2.43.0


From 7f8e5b214b8197f100ead6277ed0261662f5eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 75/79] fix: rdata is converted without looking whether memory
 was allocated

---
 libmy/my_alloc.h         |  8 ++++++++
 wdns/rdata_to_ubuf.c     |  2 +-
 wdns/str_to_rdata_ubuf.c | 32 ++++++++++++++++----------------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/libmy/my_alloc.h b/libmy/my_alloc.h
index 4ae4865..bce484c 100644
--- a/libmy/my_alloc.h
+++ b/libmy/my_alloc.h
@@ -37,6 +37,14 @@ my_strdup(const char *s)
 	return (ptr);
 }
 
+static inline char *
+my_strndup(const char *s, size_t n)
+{
+	char *ptr = strndup(s, n);
+	assert(ptr != NULL);
+	return (ptr);
+}
+
 #define my_free(ptr) do { free(ptr); (ptr) = NULL; } while (0)
 
 #if defined(MY_ALLOC_WARN_DEPRECATED)
diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index da20ecd..809c3a3 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -69,7 +69,7 @@ bytes_to_ubuf_base64(uint8_t *src, uint16_t src_len, ubuf *u)
 	base64_encodestate b64;
 
 	base64_init_encodestate(&b64);
-	buf = malloc(2 * src_len + 1);
+	buf = my_malloc(2 * src_len + 1);
 
 	len = base64_encode_block((const char *)src, src_len, buf, &b64);
 	ubuf_append(u, (uint8_t *)buf, len);
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 6a7bd25..3ce8287 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -99,7 +99,7 @@ base64_str_to_ubuf(const char *str, size_t str_len, ubuf *u)
 	size_t buf_len;
 
 	base64_init_decodestate(&b64);
-	buf = malloc(str_len+1);
+	buf = my_malloc(str_len+1);
 	buf_len = base64_decode_block((const char *) str, str_len, buf, &b64);
 	ubuf_append(u, (uint8_t *) buf, buf_len);
 	free(buf);
@@ -461,11 +461,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s = strndup(str, end-str);
+				s = my_strndup(str, end-str);
 			} else {
-				s = strdup(str);
+				s = my_strdup(str);
 			}
-			name = calloc(1, sizeof(*name));
+			name = my_calloc(1, sizeof(*name));
 
 			res = wdns_str_to_name_case(s, name);
 			if (res != wdns_res_success) {
@@ -579,9 +579,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			char * pres;
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 
 			int pton_res = inet_pton(AF_INET6, pres, addr);
@@ -670,7 +670,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				break;
 			}
 
-			buf = malloc(str_len);
+			buf = my_malloc(str_len);
 			buf_len = base32_decode(buf, str_len, str, str_len);
 
 			uint8_t oclen = (uint8_t)buf_len;
@@ -785,7 +785,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				end = str + strlen(str);
 			}
 
-			pres = strdup(str);
+			pres = my_strdup(str);
 			pres[end-str] = 0;
 			pton_res = inet_pton(AF_INET, pres, addr);
 			free(pres);
@@ -808,9 +808,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 			pton_res = inet_pton(AF_INET6, pres, addr);
 			free(pres);
@@ -937,9 +937,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s_rrtype = strndup(str, end-str);
+				s_rrtype = my_strndup(str, end-str);
 			} else {
-				s_rrtype = strdup(str);
+				s_rrtype = my_strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
 			bool is_type0 = (strcasecmp(s_rrtype, "TYPE0") == 0);
@@ -995,7 +995,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					val++;
 				}
 
-				dup = strndup(key, val - key);
+				dup = my_strndup(key, val - key);
 				k = _wdns_str_to_svcparamkey(dup);
 				free(dup);
 
@@ -1043,7 +1043,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 
 				len_dup = ubuf_size(u) - orig_size;
-				dup = calloc(len_dup+1, 1);
+				dup = my_calloc(len_dup+1, 1);
 				memcpy(dup, ubuf_data(u) + orig_offset, len_dup);
 				ubuf_clip(u, orig_size);
 
@@ -1085,9 +1085,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				end = strpbrk(str, " \t\r\n");
 				if (end != NULL) {
-					s_rrtype = strndup(str, end-str);
+					s_rrtype = my_strndup(str, end-str);
 				} else {
-					s_rrtype = strdup(str);
+					s_rrtype = my_strdup(str);
 				}
 
 				my_rrtype = wdns_str_to_rrtype(s_rrtype);
-- 
2.43.0


From eb7a3ab0423047d149534a1679e275051702f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 76/79] fix: argv_process() ignores that there is no memory for
 a negative number

---
 libmy/argv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 2c14d1f..1fae256 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2798,7 +2798,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p);
+              if (string_to_value(*arg_p, match_p) != NOERROR) {
+		*okay_bp = ARGV_FALSE;
+	      }
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
-- 
2.43.0


From 2b5c58462dcee8daeb1a53749217ca5f183787d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 77/79] fix: my_fileset: a set file that could not be opened is
 read at a later reload

---
 libmy/my_fileset.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 7bc651e..b11073d 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -177,8 +177,12 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		/* it has not been read, so try again at the next reload */
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
-- 
2.43.0


From 38aab9b309f31f64b908a03f6325c6e56fae716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 78/79] fix: my_fileset: keep what is loaded when the set file
 cannot be read to its end

---
 libmy/my_fileset.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index b11073d..9931d62 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -212,6 +212,26 @@ my_fileset_reload(struct my_fileset *fs)
 		}
 	}
 	free(line);
+
+	if (!feof(fp)) {
+		/* it could not be read to its end: keep what is loaded */
+		for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+			ent = entry_vec_value(new_entries, i);
+			entptr = fetch_entry(fs->entries, ent->fname);
+			if (entptr != NULL)
+				(*entptr)->keep = false;
+			else if (fs->unload)
+				fs->unload(fs, ent->fname, ent->ptr);
+			free(ent->fname);
+			free(ent);
+		}
+		entry_vec_destroy(&new_entries);
+		ubuf_destroy(&u);
+		fclose(fp);
+		fs->last_ino = 0;
+		fs->last_mtime = 0;
+		return;
+	}
 	fclose(fp);
 
 	qsort(entry_vec_data(new_entries),
-- 
2.43.0


From f95a4d3cd5508c00b7fe568b1db47171a258fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:44 +0000
Subject: [PATCH 79/79] fix: argv: refuse an argument file that opens but
 cannot be read

---
 libmy/argv.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 1fae256..de20e52 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2275,6 +2275,20 @@ static	void	file_args(const char *path, argv_t *grid,
     }
   }
   
+  /* a file that cannot be read is no better than one that cannot be opened */
+  if (ferror(infile)) {
+    *okay_bp = ARGV_FALSE;
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: could not load command-line arguments from: %s\n",
+		    argv_program, path);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+    goto out;
+  }
+  
   /* now do the list */
   do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
 	  okay_bp);
-- 
2.43.0

