From 4e913e6b39c5debca3144bc89233fed60388b0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 01/21] fix: add the comma missing from the Base64 decoding
 table

Two rows ran together: 0x7f decoded as whitespace and 0xff as value 0.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From bcaa9a31821fb6b19fdd668c68cabd626b0f2775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 02/21] fix: give LF, FF and CR their own character classes

The classes sat at the wrong code positions: '\b' counted as a line feed
and '\v' as a carriage return, while '\f' and '\r' were not whitespace.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..748aac4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From bf968b226d20182401fa5a52dedb393bd3425bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 03/21] fix: reject overlong UTF-8 sequences

---
 src/charstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr.c b/src/charstr.c
index 748aac4..bd988c7 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -458,6 +458,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
     int cp;
+    int min_cp = 0x80;          /* anything less is an overlong encoding */
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -468,11 +469,13 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (!(*s & 0x20))
             cp = *s++ & 0x1f;
         else {
+            min_cp = 0x800;
             if (!(*s & 0x10))
                 cp = *s++ & 0x0f;
             else {
                 if (*s & 0x08)
                     return NULL;
+                min_cp = 0x10000;
                 cp = *s++ & 0x07;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
@@ -485,7 +488,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min_cp || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From 01022e174e84949208fe17cb87d4a28020c391c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 04/21] fix: avl_tree_put() has no effect if the value is
 already stored at key

It used to replace the element and return the old one, against avltree.h.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 8a3a21bb008ae4197d930b893f5547bf4a21748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 05/21] fix: keep the byte array NUL-terminated when a stream
 read fails

A reader that stores bytes and then returns zero or a negative value left
the terminator overwritten.
---
 src/bytearray.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 8e2e34c..20bd6e8 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -127,10 +127,9 @@ ssize_t byte_array_append_stream(byte_array_t *array,
         return -1;
 
     ssize_t count = read_cb(obj, array->data + array->cursor, len);
-    if (count > 0) {
+    if (count > 0)
         array->cursor += count;
-        array->data[array->cursor] = 0;
-    }
+    array->data[array->cursor] = 0;
     return count;
 }
 
-- 
2.43.0


From 5502a352285692e02bbb9dbb193f064ebb768217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 06/21] fix: fscalloc() must not hand out too small a block on
 overflow

---
 src/fsalloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..ffb4a67 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -69,7 +69,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (nmemb && size > (size_t) -1 / nmemb)
+        size = -1;              /* overflow: no reallocator can satisfy it */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 617f7fdc84ee4109a678049f7f8dfec5300fbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 07/21] fix: unassigned code points before a singleton range
 are category Cn

The generated search did not check the lower bound of one-element ranges
(U+038B came out as Lu, for example).
---
 src/categorize.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..e3856aa 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -56,8 +56,8 @@ def emit_binary(ranges, indentation):
             if end == start + 1:
                 sys.stdout.write(
                     r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
+%s    return codepoint == %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+""" % (I, end, I, start, category))
             else:
                 sys.stdout.write(
                     r"""%sif (codepoint < %d)
@@ -72,9 +72,10 @@ def emit_binary(ranges, indentation):
     emit_binary(ranges[0:middle], indentation + 1)
     if end == start + 1:
         sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
+            r"""%s    return codepoint == %d """
+            r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
-""" % (I, category, I))
+""" % (I, start, category, I))
     else:
         sys.stdout.write(
                     r"""%s    return codepoint >= %d """
-- 
2.43.0


From 2625f97a4252e347bdefd5684ac4c0a5d58f6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 08/21] fix: report EOVERFLOW for Hangul syllables that do not
 fit decomposed

Running out of space in a syllable was mistaken for "not Hangul", and the
syllable was stored undecomposed.
---
 src/charstr_decompose.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..2dc3e08 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -18,7 +18,7 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return charstr_encode_utf8_codepoint(codepoint, s, end);
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
@@ -30,12 +30,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
 {
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
-    if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
-        return charstr_encode_utf8_codepoint(codepoint, s, end);
-    }
+    if (!dp)
+        return decompose_hangul(codepoint, s, end);
     while (s && *dp)
         s = decompose_fully(*dp++, s, end);
     return s;
-- 
2.43.0


From 31fc494b3fd276ecfcd040130f4c2d2c0effd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 09/21] fix: ignore whitespace between Base64 padding
 characters, too

---
 src/base64.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index eb07454..ec1275b 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -162,11 +162,19 @@ static bool good_base64_tail(const char *tail, size_t tail_size,
         default:
             assert(false);
     }
-    size_t padding_len = strlen(padding);
-    return tail_size >= padding_len &&
-        !strncmp(tail, padding, padding_len) &&
-        good_termination(tail + padding_len, tail_size - padding_len,
-                         ignore_wsp);
+    for (; *padding; padding++) {
+        while (ignore_wsp && tail_size &&
+               base64_bitfield_decoding[*tail & 0xff] ==
+               BASE64_ILLEGAL_WHITESPACE) {
+            tail++;
+            tail_size--;
+        }
+        if (!tail_size || *tail != *padding)
+            return false;
+        tail++;
+        tail_size--;
+    }
+    return good_termination(tail, tail_size, ignore_wsp);
 }
 
 static int8_t get_bits(char c, char pos62, char pos63, bool ignore_wsp)
-- 
2.43.0


From cb20245b11e182d20b8f6321a13cde0b8af94f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 10/21] fix: let a hostname decompose to three times its size

The terminating NUL was not counted in, and U+1D160 alone was refused.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..c25dd46 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -278,7 +278,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 97a0f0ee7c1b06037dae990c50a3849513320c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 11/21] fix: refuse too long all-ASCII labels instead of
 aborting

In a hostname that is not all-ASCII, a plain label of more than 63
characters failed the assertion in encode_filtered().
---
 src/charstr_puny.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index c25dd46..a7e1641 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,9 +167,7 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
-        return next;
-    if (ascii_count)
+    if (nonascii_count && ascii_count)
         o = emit(o, end_output, output_size, '-');
     o = punycode_encode_pass2(input, end, o, end_output, output_size,
                               ascii_count, nonascii, nonascii_count);
-- 
2.43.0


From 968f2ec6387112aeb78f96dd52632c365fc397ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 12/21] fix: allow 253 characters in an IDNA encoding without
 its final dot

The dot after the last label was counted twice.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index a7e1641..f266baf 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -199,7 +199,7 @@ static char *encode_filtered(const char *hostname, const char *end)
             return NULL;
         assert(output_label_size <= MAX_DNS_LABEL_LENGTH);
         output_size += output_label_size + 1;
-        if (output_size > MAX_DNS_NAME_LENGTH - 1) /* -1 for the final '.' */
+        if (output_size > MAX_DNS_NAME_LENGTH) /* includes the final '.' */
             return fail("hostname encoding too long");
         q += output_label_size;
         *q++ = '.';
-- 
2.43.0


From ece33db9196005420eed41dfc2c9d659f45720c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 13/21] fix: do not refuse hostnames because of their UTF-8
 length

Punycode often is shorter than UTF-8. A code point takes up to four bytes
but may need just one character in the encoding.
---
 src/charstr_puny.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index f266baf..4eb52bd 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -6,6 +6,7 @@
 
 enum {
     MAX_DNS_NAME_LENGTH = 254,
+    MAX_UTF8_NAME_LENGTH = 4 * MAX_DNS_NAME_LENGTH,
     MAX_DNS_LABEL_LENGTH = 63,
     BASE = 36,
     TMIN = 1,
@@ -186,7 +187,7 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
-    if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
+    if (end - hostname > MAX_UTF8_NAME_LENGTH) /* >= 1 character each */
         return fail("hostname too long");
     const char *p = hostname;
     size_t output_size = 0;
@@ -222,9 +223,9 @@ static char *safecopy(const char *src, char *dest, char *end)
 static char *encode_nfc(const char *hostname, const char *end)
 {
     const char *p = hostname;
-    char workarea[MAX_DNS_NAME_LENGTH + 1];
+    char workarea[3 * MAX_UTF8_NAME_LENGTH]; /* may be partly decomposed */
     char *q = workarea;
-    char *workend = workarea + MAX_DNS_NAME_LENGTH;
+    char *workend = workarea + sizeof workarea;
     while (p != end) {
         int codepoint;
         p = charstr_decode_utf8_codepoint(p, end, &codepoint);
-- 
2.43.0


From c6a4a11918051b9509ff4c7b7ebd8e3c8269fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 14/21] fix: normalize hostnames after mapping, as UTS #46
 requires

U+00AA U+0301 was encoded as xn--a-xbb and not like U+00E1.
---
 src/charstr_puny.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 4eb52bd..8e9d935 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -210,6 +210,28 @@ static char *encode_filtered(const char *hostname, const char *end)
     return charstr_dupstr(encoding);
 }
 
+static char *encode_mapped(const char *hostname, const char *end)
+{
+    if (charstr_unicode_canonically_composed(hostname, end))
+        return encode_filtered(hostname, end);
+    /* mapping may have brought together what composes */
+    size_t worklen = 3 * (end - hostname);
+    char *nfd = fsalloc(worklen + 1);
+    char *nfc = fsalloc(worklen + 1);
+    char *encoding = NULL;
+    char *nfd_end =
+        charstr_unicode_decompose(hostname, end, nfd, nfd + worklen + 1);
+    if (nfd_end) {
+        char *nfc_end =
+            charstr_unicode_recompose(nfd, nfd_end, nfc, nfc + worklen + 1);
+        if (nfc_end)
+            encoding = encode_filtered(nfc, nfc_end);
+    }
+    fsfree(nfc);
+    fsfree(nfd);
+    return encoding;
+}
+
 static char *safecopy(const char *src, char *dest, char *end)
 {
     size_t capacity = end - dest;
@@ -246,7 +268,7 @@ static char *encode_nfc(const char *hostname, const char *end)
     }
     /* TODO: https://unicode.org/reports/tr46/#Processing
      * CheckBidi & CheckJoiners */
-    return encode_filtered(workarea, q);
+    return encode_mapped(workarea, q);
 }
 
 static char *encode_nfd(const char *hostname, const char *end)
-- 
2.43.0


From 89870146b7560ef3684f8f88b36e039a3a4800af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 15/21] fix: include the last code point of the IDNA sets

U+2FA1D was not mapped and U+3134A not valid.
---
 src/gen_idna_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..0b6a36e 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -43,12 +43,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From 370ee067c104da55ad3e50444dd38ad159ac89e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 16/21] fix: include the last range of an IDNA status

U+E01F0 to U+10FFFF were not disallowed.
---
 src/gen_idna_table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 0b6a36e..2327abe 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,6 +33,9 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
+    if (prev_cp >= 0)
+        printf("    if (codepoint < %d) return codepoint >= %d;\n",
+               N_CP, prev_cp);
     printf("    return false;\n"
            "}\n");
 }
-- 
2.43.0


From 1f70e15ead7c8f1512c86772b107493be6b8ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 17/21] fix: convert times before 1970 and far in the future
 correctly

The remainders of negative epochs came out negative, and the day count
overflowed int.
---
 src/date.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..585d434 100644
--- a/src/date.c
+++ b/src/date.c
@@ -20,38 +20,48 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         _4_YEARS = 4 * YEAR + 1,
         FEBRUARY = 1            /* sic */
     };
+    time_t days = epoch / SECONDS_PER_DAY;
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        days--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
-    tm->tm_wday = (days + 4) % 7;
+    tm->tm_wday = ((days + 4) % 7 + 7) % 7;
     days += FROM_1600_03_01;
-    tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
+    time_t year = 1600 + days / _400_YEARS * 400 - 1900;
     days %= _400_YEARS;
+    if (days < 0) {
+        days += _400_YEARS;
+        year -= 400;
+    }
     int centuries = days / CENTURY;
-    tm->tm_year += centuries * 100;
+    year += centuries * 100;
     if (centuries == 4) {
+        tm->tm_year = year;
         tm->tm_mon = FEBRUARY;
         tm->tm_mday = 29;
         return tm;
     }
     days %= CENTURY;
-    tm->tm_year += days / _4_YEARS * 4;
+    year += days / _4_YEARS * 4;
     days %= _4_YEARS;
     int years = days / YEAR;
-    tm->tm_year += years;
+    year += years;
     if (years == 4) {
+        tm->tm_year = year;
         tm->tm_mon = FEBRUARY;
         tm->tm_mday = 29;
         return tm;
     }
     days %= YEAR;        /* 1 Jan = 0 */
     const yday_info_t *info = &YDAY_INFO[days];
-    tm->tm_year += info->year_offset;
+    tm->tm_year = year + info->year_offset;
     tm->tm_mon = info->month;
     tm->tm_mday = info->mday;
     return tm;
-- 
2.43.0


From 896dd5aad026a547489179904511d3d2eef49722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:49 +0000
Subject: [PATCH 18/21] fix: let a byte array copy or append its own content
 when it must grow

---
 src/bytearray.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/bytearray.c b/src/bytearray.c
index 20bd6e8..0652ab2 100644
--- a/src/bytearray.c
+++ b/src/bytearray.c
@@ -68,6 +68,20 @@ static bool ensure_space(byte_array_t *array, size_t len)
     return true;
 }
 
+/* Like ensure_space() but if '*data' points inside the array's own
+ * content, make it point at the same content after a reallocation. */
+static bool ensure_space_for(byte_array_t *array,
+                             size_t len,
+                             const void **data)
+{
+    uintptr_t offset = (uintptr_t) *data - (uintptr_t) array->data;
+    if (!ensure_space(array, len))
+        return false;
+    if (offset <= array->cursor)
+        *data = array->data + offset;
+    return true;
+}
+
 bool byte_array_copy(byte_array_t *array,
                      size_t pos,
                      const void *data,
@@ -77,7 +91,7 @@ bool byte_array_copy(byte_array_t *array,
         return false;
 
     if (len > array->cursor - pos) {
-        if (!ensure_space(array, pos + len - array->cursor))
+        if (!ensure_space_for(array, pos + len - array->cursor, &data))
             return false;
     }
 
@@ -96,10 +110,10 @@ bool byte_array_copy_string(byte_array_t *array, size_t pos, const char *str)
 
 bool byte_array_append(byte_array_t *array, const void *data, size_t len)
 {
-    if (!ensure_space(array, len))
+    if (!ensure_space_for(array, len, &data))
         return false;
 
-    memcpy(array->data + array->cursor, data, len);
+    memmove(array->data + array->cursor, data, len);
     array->cursor += len;
     array->data[array->cursor] = 0;
     return true;
-- 
2.43.0


From 7e09bcffa013bedf093394fc4c1b6de1b128616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 19/21] fix: integer set searches with sizes near and beyond
 2^32 terminate

---
 src/intset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intset.c b/src/intset.c
index 87e36a2..df52d20 100644
--- a/src/intset.c
+++ b/src/intset.c
@@ -50,7 +50,7 @@ bool intset_has(intset_t *s, unsigned elem)
         return false;
 }
 
-static int intset_find_next(intset_t *s, unsigned elem,
+static int intset_find_next(intset_t *s, size_t elem,
                             bool hit)
 {
     if (elem >= s->size)
-- 
2.43.0


From c6e09c3c32e497dc9084a312178d2cb780606e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:44 +0000
Subject: [PATCH 20/21] fix: intset_empty sees members above INT_MAX

---
 include/intset.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/intset.h b/include/intset.h
index 566d264..6b0e771 100644
--- a/include/intset.h
+++ b/include/intset.h
@@ -25,7 +25,8 @@ int intset_find_next_miss(intset_t *s, unsigned elem);
 
 static inline bool intset_empty(intset_t *s)
 {
-    return intset_find_next_hit(s, 0) < 0;
+    /* a member above INT_MAX shows as a negative number */
+    return intset_find_next_hit(s, 0) == -1 && !intset_has(s, (unsigned) -1);
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 39becaafa58676639bcf897df2c988b7a08e2e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 21/21] fix: document which punctuation
 charstr_url_encode_byte() leaves alone

---
 include/charstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/charstr.h b/include/charstr.h
index 9b37a76..0ba8865 100644
--- a/include/charstr.h
+++ b/include/charstr.h
@@ -254,7 +254,7 @@ char *charstr_unicode_recompose(const char *s, const char *end,
  *  * ASCII 32 (SPC) yields "+"
  *  * digits and letters yield themselves as a one-character string
  *  * these punctuation characters yield themselves as a one-character string:
- *    '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', ']', '~'
+ *    '"', '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', '}', '~'
  *  * all other values yield the byte's percent encoding: "%XX" where X
  *    is an upper-case hexadecimal digit.
  */
-- 
2.43.0

