From f583c9a2dae01bbc12c622f5fd7f339fef291d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:11 +0000
Subject: [PATCH 001/154] fix: htlist_splice_tail() on an empty destination
 list

Splicing a non-empty list at the tail of an empty one dereferenced the NULL
tail of the destination (reachable with ob_merge() when the destination
outbuf has no chunk).
---
 src/container-htlist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/container-htlist.h b/src/container-htlist.h
index 93e6c62..db29490 100644
--- a/src/container-htlist.h
+++ b/src/container-htlist.h
@@ -170,6 +170,9 @@ static inline void htlist_move(htlist_t * nonnull dst,
 static inline void htlist_splice_tail(htlist_t * nonnull dst,
                                       htlist_t * nonnull src)
 {
+    if (htlist_is_empty(dst)) {
+        htlist_splice(dst, src);
+    } else
     if (!htlist_is_empty(src)) {
         src->tail->next = dst->tail->next;
         dst->tail->next = src->head;
-- 
2.43.0


From 09d0c362bdec2aff8f55a62757cfe10245212cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:24 +0000
Subject: [PATCH 002/154] fix: uniq_i8() must keep the order of signed values

uniq_i8() was an alias of uniq8(), whose 8-bit implementation rewrites the
array in unsigned order: the result of uniq_i8() on an array sorted by
dsort_i8() was not sorted any more.
---
 src/core/sort-numeric.in.c | 4 ++--
 src/core/sort.blk          | 1 +
 src/sort.h                 | 4 +---
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/sort-numeric.in.c b/src/core/sort-numeric.in.c
index fc87c0e..94dd02a 100644
--- a/src/core/sort-numeric.in.c
+++ b/src/core/sort-numeric.in.c
@@ -162,7 +162,7 @@ size_t uniq(type_t data[], size_t len)
     size_t pos = 0;
 
     for (size_t i = 0; i < len; i++) {
-        SET_BIT(flags, data[i]);
+        SET_BIT(flags, TRANSLATE(data[i]));
     }
 
     for (int i = 0; i < countof(flags); i++) {
@@ -170,7 +170,7 @@ size_t uniq(type_t data[], size_t len)
             int bit = bsf64(flags[i]);
 
             RST_BIT(&flags[i], bit);
-            data[pos++] = bitsizeof(flags[i]) * i + bit;
+            data[pos++] = TRANSLATE(bitsizeof(flags[i]) * i + bit);
         }
     }
     return pos;
diff --git a/src/core/sort.blk b/src/core/sort.blk
index 5303ce9..1a3276c 100644
--- a/src/core/sort.blk
+++ b/src/core/sort.blk
@@ -30,6 +30,7 @@
 #define utype_t   uint8_t
 #define TYPE_MIN  INT8_MIN
 #define dsort     dsort_i8
+#define uniq      uniq_i8
 #include "sort-numeric.in.c"
 
 #define type_t   uint16_t
diff --git a/src/sort.h b/src/sort.h
index f5f3167..9f6684b 100644
--- a/src/sort.h
+++ b/src/sort.h
@@ -35,9 +35,7 @@ bool contains_i8(int8_t what, const int8_t data[], size_t len);
 void   dsort8(uint8_t base[], size_t n);
 void   dsort_i8(int8_t base[], size_t n);
 size_t uniq8(uint8_t base[], size_t n);
-static inline size_t uniq_i8(int8_t base[], size_t n) {
-    return uniq8((uint8_t *)base, n);
-}
+size_t uniq_i8(int8_t base[], size_t n);
 
 static inline size_t
 bisect16(uint16_t what, const uint16_t data[], size_t len, bool *found);
-- 
2.43.0


From f54a11534556e2de3050e761058928cd646d4785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:39 +0000
Subject: [PATCH 003/154] fix: iop_bskip() must accept unions whose selected
 field is void

unpack_union() accepts such a union; iop_bskip() refused it.
---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 7ab0795..737f1eb 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5364,7 +5364,7 @@ int iop_bskip(const iop_struct_t *desc, pstream_t *ps)
         PS_CHECK(get_uint32(ps, 4, &u32));
 
       read_blk:
-        PS_WANT((1 << fdesc->type) & IOP_BLK_OK);
+        PS_WANT((1 << fdesc->type) & IOP_BLK_OK || fdesc->type == IOP_T_VOID);
         PS_CHECK(ps_skip(ps, u32)); /* Skip block */
         return 0;
 
-- 
2.43.0


From c438810e405170413894f68ba6ead8d43f3979fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 004/154] fix: check the repetition count before allocating
 arrays in iop_bunpack

n * fdesc->size was computed on 32 bits from a count that comes from the
wire: a too small array was allocated (and overflowed), or the process
panicked on a giant allocation.
---
 src/iop/iop.blk | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 737f1eb..e3b9e23 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5040,8 +5040,11 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
             }
 
           unpack_array:
+            /* each value takes at least one byte */
+            PS_WANT(ps_has(ps, n));
             data->len  = n;
-            data->data = v = mp_imalloc(mp, n * fdesc->size, 8, MEM_RAW);
+            data->data = v = mp_imalloc(mp, (size_t)n * fdesc->size, 8,
+                                        MEM_RAW);
 
             while (n-- > 1) {
                 if (unpack_value(mp, wt, fdesc, v, ps, flags) < 0) {
-- 
2.43.0


From 888615af95ec47812ad769cd9719cbcf247e5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 005/154] fix: reject IOP strings packed in an empty block

The block of a string contains at least its ending NUL byte; an empty one
was unpacked as a string of length -1.
---
 src/iop/iop.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index e3b9e23..f6ffdd2 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4853,6 +4853,8 @@ static int unpack_value(mem_pool_t *mp, iop_wire_type_t wt,
           case IOP_T_STRING:
           case IOP_T_DATA:
           case IOP_T_XML:
+            /* the ending NUL byte is part of the block */
+            PS_WANT(u32 >= 1);
             *(lstr_t *)v = LSTR_INIT_V(((flags & IOP_UNPACK_COPY_STRINGS)
                                         ? mp_dup(mp, ps->s, u32)
                                         : ps->p), u32 - 1);
-- 
2.43.0


From b1d8c49be11359cb55ffa126032bf1df5ae0aa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 006/154] fix: do not recurse in nested repetitions when
 skipping an IOP field

A few hundred kilobytes of nested REPEAT headers exhausted the stack.
---
 src/iop/iop.blk | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index f6ffdd2..392e25e 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4646,6 +4646,8 @@ static int iop_skip_field(pstream_t *ps, iop_wire_type_t wt)
         while (n--) {
             PS_WANT(ps_has(ps, 1) && IOP_TAG(ps->b[0]) == 0);
             wt = IOP_WIRE_FMT(__ps_getc(ps));
+            /* no packer nests repetitions: do not recurse in them */
+            PS_WANT(wt != IOP_WIRE_REPEAT);
             RETHROW(iop_skip_field(ps, wt));
         }
       } break;
-- 
2.43.0


From eaa48b149b4860ea044a42d8832b3efc4825409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:54 +0000
Subject: [PATCH 007/154] fix: check the values of bool arrays in iop_bunpack

As for a single bool, only 0 and 1 are valid; other bytes ended in bool
objects, and packing them again fails on an assertion.
---
 src/iop/iop.blk | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 392e25e..e0c370b 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -5025,6 +5025,11 @@ unpack_struct(mem_pool_t *mp, const iop_struct_t *desc, void *value,
                 }
                 PS_WANT(ps_has(ps, len));
 
+                if (fdesc->type == IOP_T_BOOL) {
+                    for (uint32_t i = 0; i < len; i++) {
+                        PS_WANT(ps->b[i] <= 1);
+                    }
+                }
                 if (fdesc->size == 1) {
                     data->len = len;
                     data->data = ((flags & IOP_UNPACK_COPY_STRINGS)
-- 
2.43.0


From 062bc8722e37fc69d3403fc8f808f3d0fe711e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:30 +0000
Subject: [PATCH 008/154] fix: escape characters out of the BMP as surrogate
 pairs in JSON and YAML

---
 src/core/parsing-helpers.c | 14 +++++++++++++-
 src/core/yaml.c            | 14 ++++++++++++--
 src/iop/json.blk           | 14 ++++++++++++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/core/parsing-helpers.c b/src/core/parsing-helpers.c
index 650204e..ab54ccf 100644
--- a/src/core/parsing-helpers.c
+++ b/src/core/parsing-helpers.c
@@ -68,8 +68,20 @@ parse_backslash(pstream_t *ps, sb_t *buf, int *line, int *col)
         if (ps_has(ps, 6) && (a = hexdecode(ps->s + 2)) >= 0
             && (b = hexdecode(ps->s + 4)) >= 0)
         {
-            sb_adduc(buf, (a << 8) | b);
+            int c = (a << 8) | b;
+
             SKIP(6);
+
+            /* Characters out of the BMP are escaped as a surrogate pair. */
+            if (c >= 0xd800 && c < 0xdc00
+            &&  ps_has(ps, 6) && ps->b[0] == '\\' && ps->b[1] == 'u'
+            &&  (a = hexdecode(ps->s + 2)) >= 0xdc && a <= 0xdf
+            &&  (b = hexdecode(ps->s + 4)) >= 0)
+            {
+                c = 0x10000 + ((c - 0xd800) << 10) + ((a - 0xdc) << 8) + b;
+                SKIP(6);
+            }
+            sb_adduc(buf, c);
             return 0;
         }
         break;
diff --git a/src/core/yaml.c b/src/core/yaml.c
index 99be2b5..891c4b8 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3933,7 +3933,8 @@ static int yaml_pack_string(yaml_pack_env_t *env, lstr_t val,
 
         /* Assume broken utf-8 is mixed latin1 */
         c = ps_getuc(&ps);
-        if (unlikely(c < 0)) {
+        if (unlikely(c < 0 || c > 0x10ffff)) {
+            ps.b = p + nbchars;
             c = ps_getc(&ps);
         }
         switch (c) {
@@ -3969,7 +3970,16 @@ static int yaml_pack_string(yaml_pack_env_t *env, lstr_t val,
           default: {
             char ibuf[IBUF_LEN];
 
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (c >= 0x10000) {
+                /* uXXXX is only able to carry 16 bits: use a surrogate pair,
+                 * as in JSON. */
+                c -= 0x10000;
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x\\u%04x",
+                                    0xd800 + (c >> 10),
+                                    0xdc00 + (c & 0x3ff)));
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
           } break;
         }
     }
diff --git a/src/iop/json.blk b/src/iop/json.blk
index ec56be6..63c73f9 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -2354,10 +2354,20 @@ static int write_string(lstr_t val, iop_type_t type, unsigned flags,
             }
             /* Assume broken utf-8 is mixed latin1 */
             c = ps_getuc(&ps);
-            if (unlikely(c < 0)) {
+            if (unlikely(c < 0 || c > 0x10ffff)) {
+                ps.b = p + nbchars;
                 c = ps_getc(&ps);
             }
-            WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            if (c >= 0x10000) {
+                /* uXXXX is only able to carry 16 bits: use a surrogate
+                 * pair. */
+                c -= 0x10000;
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x\\u%04x",
+                                    0xd800 + (c >> 10),
+                                    0xdc00 + (c & 0x3ff)));
+            } else {
+                WRITE(ibuf, sprintf(ibuf, "\\u%04x", c));
+            }
         }
     }
 
-- 
2.43.0


From 2ad2f484afa0eee1d0723adc8495cd92208809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 009/154] fix: no integer overflow when looking for a value in
 IOP ranges

---
 src/iop/iop.blk | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index e0c370b..bcccda4 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -4553,7 +4553,8 @@ int iop_ranges_search(int const * ranges, int ranges_len, int tag)
             r = i;
             continue;
         }
-        if (tag + offs >= start + ranges[i * 2 + 2]) {
+        /* XXX 64 bits: enum values can be close to INT32_MAX. */
+        if ((int64_t)tag + offs >= (int64_t)start + ranges[i * 2 + 2]) {
             l = i + 1;
             continue;
         }
-- 
2.43.0


From cedf66044c3ee1bd55573d729f8551e76cd1ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:19 +0000
Subject: [PATCH 010/154] fix: no read past the end of the input in the IOP
 JSON lexer

---
 src/iop/json.blk | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index 63c73f9..016a406 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -505,6 +505,9 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
             if (EATC() == '\n')
                 NEWLINE();
         }
+        if (ps_done(PS)) {
+            goto result;
+        }
         switch (c = READC()) {
 
           case '<': case '>':
@@ -620,8 +623,6 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
         };
         int c = escaped[READAT(1)];
 
-        if (!HAS(2))
-            return RJERROR_WARG(IOP_JERR_EXP_SMTH);
         switch (c) {
             int a, b;
           case OCTAL:
@@ -636,12 +637,16 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
             /* null */
             if (READAT(1) == '0') {
                 ll->ctx->u.i = '\0';
+            } else {
+                return RJERROR_WARG(IOP_JERR_EXP_SMTH);
             }
             break;
           case HEXADECIMAL:
             if (HAS(4) && (a = hexdecode(PS->s + 2)) >= 0) {
                 ll->ctx->u.i = a;
                 SKIP(2);
+            } else {
+                return RJERROR_WARG(IOP_JERR_EXP_SMTH);
             }
             break;
           case UNICODE:
@@ -651,6 +656,8 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
             {
                 ll->ctx->u.i = a << 8 | b;
                 SKIP(4);
+            } else {
+                return RJERROR_WARG(IOP_JERR_EXP_SMTH);
             }
             break;
           case 0:
@@ -660,7 +667,7 @@ static int iop_json_lex_char(iop_json_lex_t *ll, int terminator)
             break;
         }
         SKIP(2);
-        if (READC() != terminator) {
+        if (!HAS(1) || READC() != terminator) {
             return RJERROR_WARG(IOP_JERR_EXP_SMTH);
         }
         SKIP(1);
@@ -753,7 +760,7 @@ static int iop_json_lex(iop_json_lex_t *ll, const iop_field_t *fdesc)
                 return EATC();
 
       case 'c': /* string character prefix */
-                c = READAT(1);
+                c = HAS(2) ? READAT(1) : 0;
                 if (c == '\'' || c == '"') {
                     SKIP(2);
                     return iop_json_lex_char(ll, c);
@@ -1028,6 +1035,9 @@ static int unpack_val_file_inclusion(iop_json_lex_t *ll,
 
     SKIP(strlen("include("));
 
+    if (!HAS(1)) {
+        return JERROR_WARG(IOP_JERR_EXP_SMTH, 1);
+    }
     switch (READC()) {
       case '\'': case '"':
         STORECTX();
-- 
2.43.0


From c88bab2ffb5b7e311d00160d9ea2a0a8945a91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:19 +0000
Subject: [PATCH 011/154] fix: accept enum names as single value of a repeated
 field in JSON

---
 src/iop/json.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/json.blk b/src/iop/json.blk
index 016a406..3479419 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -1168,7 +1168,7 @@ static int unpack_val(iop_json_lex_t *ll, const iop_field_t *fdesc,
     }
 
     if (!in_arr && fdesc->repeat == IOP_R_REPEATED) {
-        if (PS_CHECK(iop_json_lex_peek(ll, NULL)) == '[') {
+        if (PS_CHECK(iop_json_lex_peek(ll, fdesc)) == '[') {
             iop_json_lex(ll, NULL);
             return unpack_arr(ll, fdesc, value);
         } else {
-- 
2.43.0


From 47514d787a0d6ee1061b1a61475fca441623c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:22 +0000
Subject: [PATCH 012/154] fix: check the range of 64 bits integers in IOP JSON

---
 src/iop-json.h   |  1 +
 src/iop/json.blk | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/iop-json.h b/src/iop-json.h
index 421fb2d..0be60cc 100644
--- a/src/iop-json.h
+++ b/src/iop-json.h
@@ -74,6 +74,7 @@ typedef struct iop_json_lex_ctx_t {
         double  d;
     } u;
     bool is_signed;
+    bool is_literal;
 } iop_json_lex_ctx_t;
 
 typedef struct iop_json_lex_t {
diff --git a/src/iop/json.blk b/src/iop/json.blk
index 3479419..0f062b1 100644
--- a/src/iop/json.blk
+++ b/src/iop/json.blk
@@ -493,6 +493,8 @@ static int iop_json_lex_enum(iop_json_lex_t *ll, int terminator,
 static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
 {
     uint64_t num = 0;
+    bool is_signed = false;
+    bool is_literal = true;
     int type = IOP_JSON_INTEGER;
 
     if (READC() == '+')
@@ -535,6 +537,7 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
             e_trace(1, "feed operator %c", c);
             if (iop_cfolder_feed_operator(ll->cfolder, c) < 0)
                 return RJERROR_WARG(IOP_JERR_PARSE_NUM);
+            is_literal = false;
             SKIP(1);
             break;
 
@@ -578,10 +581,12 @@ static int iop_json_lex_expr(iop_json_lex_t *ll, const iop_field_t *fdesc)
 
   result:
     /* Let's try to get a result */
-    if (iop_cfolder_get_result(ll->cfolder, &num, NULL) < 0)
+    if (iop_cfolder_get_result(ll->cfolder, &num, &is_signed) < 0)
         return RJERROR_WARG(IOP_JERR_PARSE_NUM);
 
     ll->ctx->u.i = num;
+    ll->ctx->is_signed = is_signed;
+    ll->ctx->is_literal = is_literal;
     e_trace(1, "-> result %jd", ll->ctx->u.i);
 
     return IOP_JSON_INTEGER;
@@ -735,6 +740,7 @@ static int iop_json_lex(iop_json_lex_t *ll, const iop_field_t *fdesc)
         ll->cur_ctx.col       = ll->peeked_ctx.col;
         ll->cur_ctx.u         = ll->peeked_ctx.u;
         ll->cur_ctx.is_signed = ll->peeked_ctx.is_signed;
+        ll->cur_ctx.is_literal = ll->peeked_ctx.is_literal;
 
         return res;
     }
@@ -1243,6 +1249,10 @@ static int unpack_val(iop_json_lex_t *ll, const iop_field_t *fdesc,
             }
             if (errno || q != (const char *)ll->ctx->b.data + ll->ctx->b.len)
                 return RJERROR_WARG(IOP_JERR_PARSE_NUM);
+            /* strtoull() accepts negative numbers. */
+            ll->ctx->is_signed = ll->ctx->u.i < 0
+                              && memchr(ll->ctx->b.data, '-', ll->ctx->b.len);
+            ll->ctx->is_literal = false;
             goto integer;
 
           case IOP_T_DOUBLE:
@@ -1297,15 +1307,24 @@ do_double:
       case IOP_JSON_INTEGER:
         integer:
         switch (fdesc->type) {
+            /* XXX the result of a bitwise expression is unsigned: it can be
+             * stored in a signed integer. */
 #define CHECK_RANGE(_min, _max)  \
             do {                                                             \
-                if (ll->ctx->u.i < _min || ll->ctx->u.i > _max) {            \
+                if (ll->ctx->u.i < _min || ll->ctx->u.i > _max               \
+                ||  (ll->ctx->u.i < 0 && !ll->ctx->is_signed                 \
+                 &&  ll->ctx->is_literal))                                   \
+                {                                                            \
                     return RJERROR_WARG(IOP_JERR_OUT_OF_RANGE);              \
                 }                                                            \
             } while (0)
 
           case IOP_T_DOUBLE:
-            *(double *)value = ll->ctx->u.i;
+            if (ll->ctx->u.i < 0 && !ll->ctx->is_signed) {
+                *(double *)value = (uint64_t)ll->ctx->u.i;
+            } else {
+                *(double *)value = ll->ctx->u.i;
+            }
             return 0;
           case IOP_T_I8:
             CHECK_RANGE(INT8_MIN, INT8_MAX);
@@ -1324,6 +1343,10 @@ do_double:
             *(uint16_t *)value = ll->ctx->u.i;
             break;
           case IOP_T_ENUM:
+            /* XXX the packer dumps the unknown negative values of an enum as
+             * unsigned integers. */
+            ll->ctx->is_literal = false;
+            /* FALLTHROUGH */
           case IOP_T_I32:
             CHECK_RANGE(INT32_MIN, INT32_MAX);
             *(int32_t *)value = ll->ctx->u.i;
@@ -1332,7 +1355,14 @@ do_double:
             CHECK_RANGE(0, UINT32_MAX);
             *(uint32_t *)value = ll->ctx->u.i;
             break;
-          case IOP_T_I64: case IOP_T_U64:
+          case IOP_T_I64:
+            CHECK_RANGE(INT64_MIN, INT64_MAX);
+            *(int64_t *)value = ll->ctx->u.i;
+            break;
+          case IOP_T_U64:
+            if (ll->ctx->u.i < 0 && ll->ctx->is_signed) {
+                return RJERROR_WARG(IOP_JERR_OUT_OF_RANGE);
+            }
             *(uint64_t *)value = ll->ctx->u.i;
             break;
           case IOP_T_BOOL:
-- 
2.43.0


From 4b002a9105b65144516be6f0488ebca018934b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:39 +0000
Subject: [PATCH 013/154] fix: sign, overflows and traps in the IOP constant
 folder

---
 src/iop/cfolder.c | 69 +++++++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/iop/cfolder.c b/src/iop/cfolder.c
index 4571616..1e2d1c0 100644
--- a/src/iop/cfolder.c
+++ b/src/iop/cfolder.c
@@ -148,29 +148,37 @@ static int cf_reduce(qv_t(cf_elem) *stack)
       case CF_OP_SUB:
         if (unary) {
             res.num       = -eright.num;
-            res.is_signed = !eright.is_signed;
+            res.is_signed = !eright.is_signed
+                         || SIGNED(eright.num) != INT64_MIN;
+        } else
+        if (eleft.is_signed || eright.is_signed) {
+            int64_t sub;
+
+            CF_OVERFLOW(!__builtin_sub_overflow(SIGNED(eleft.num),
+                                                SIGNED(eright.num), &sub));
+            res.num       = sub;
+            res.is_signed = true;
         } else {
-            res.num = eleft.num - eright.num;
-            if (eleft.is_signed && eright.is_signed) {
-                res.is_signed = SIGNED(eleft.num) > SIGNED(eright.num);
-            } else
-            if (eleft.is_signed && !eright.is_signed) {
-                res.is_signed = true;
-            } else
-            if (!eleft.is_signed && eright.is_signed) {
-                res.is_signed = false;
-            } else {
-                res.is_signed = eleft.num < eright.num;
-            }
+            res.num       = eleft.num - eright.num;
+            res.is_signed = eleft.num < eright.num;
+            CF_OVERFLOW(!res.is_signed || SIGNED(res.num) < 0);
         }
         break;
       case CF_OP_MUL:
         assert (!unary);
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
-            res.num = SIGNED(eleft.num) * SIGNED(eright.num);
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
+            int64_t mul;
+
+            CF_OVERFLOW(!__builtin_mul_overflow(SIGNED(eleft.num),
+                                                SIGNED(eright.num), &mul));
+            res.num = mul;
         } else {
-            res.num = eleft.num * eright.num;
+            uint64_t mul;
+
+            CF_OVERFLOW(!__builtin_mul_overflow(eleft.num, eright.num,
+                                                &mul));
+            res.num = mul;
         }
         break;
       case CF_OP_DIV:
@@ -178,14 +186,12 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid division by 0");
         }
-        if (eleft.is_signed && eleft.num == (uint64_t)INT64_MIN
-        &&  eright.is_signed && eright.num == (uint64_t)-1)
-        {
-            return e_error("division overflow");
-        }
 
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
+            if (SIGNED(eleft.num) == INT64_MIN && SIGNED(eright.num) == -1) {
+                return e_error("division overflow");
+            }
             res.num = SIGNED(eleft.num) / SIGNED(eright.num);
         } else {
             res.num = eleft.num / eright.num;
@@ -196,9 +202,12 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         if (!eright.num) {
             return e_error("invalid modulo by 0");
         }
-        res.is_signed = eleft.is_signed ^ eright.is_signed;
-        if (eleft.is_signed || eright.is_signed) {
-            res.num = SIGNED(eleft.num) % SIGNED(eright.num);
+        res.is_signed = eleft.is_signed || eright.is_signed;
+        if (res.is_signed) {
+            /* XXX INT64_MIN % -1 traps. */
+            if (SIGNED(eright.num) != -1) {
+                res.num = SIGNED(eleft.num) % SIGNED(eright.num);
+            }
         } else {
             res.num = eleft.num % eright.num;
         }
@@ -221,8 +230,8 @@ static int cf_reduce(qv_t(cf_elem) *stack)
             int64_t sres = 1;
             int64_t l = SIGNED(eleft.num);
 
-            if (l == -1) {
-                res.num = (eright.num % 2 == 0) ? 1 : -1;
+            if (l == -1 || l == 1) {
+                res.num = (eright.num % 2 == 0) ? 1 : l;
                 break;
             }
             while (eright.num-- > 0) {
@@ -267,10 +276,12 @@ static int cf_reduce(qv_t(cf_elem) *stack)
         break;
       case CF_OP_LSHIFT:
         assert (!unary);
+        CF_OVERFLOW(eright.num < 64);
         res.num = eleft.num << eright.num;
         break;
       case CF_OP_RSHIFT:
         assert (!unary);
+        CF_OVERFLOW(eright.num < 64);
         res.num = eleft.num >> eright.num;
         break;
       default:
-- 
2.43.0


From 68e46cc04f777a3dbabebf6629a3b926a1f0aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 014/154] fix: xmlr: refuse negative numbers for unsigned
 64-bit integers

strtoull() silently wraps them: "-1" was read as 18446744073709551615.
---
 src/core/xmlr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/xmlr.c b/src/core/xmlr.c
index edc3257..6388ee3 100644
--- a/src/core/xmlr.c
+++ b/src/core/xmlr.c
@@ -512,6 +512,9 @@ static int xmlr_val_u64_base(xml_reader_t xr, const char *s, int base,
     if (!s)
         return xmlr_fail(xr, "node value is missing");
     errno = 0;
+    if (skipspaces(s)[0] == '-') {
+        return xmlr_fail(xr, "node value is not a valid integer");
+    }
     *u64p = strtoull(s, &s, base);
     if (skipspaces(s)[0] || errno)
         return xmlr_fail(xr, "node value is not a valid integer");
@@ -670,6 +673,9 @@ static int xmlr_attr_u64_base(xml_reader_t xr, const char *name,
     if (!s)
         return xmlr_fail(xr, "[%s] value is missing", name);
     errno = 0;
+    if (skipspaces(s)[0] == '-') {
+        return xmlr_fail(xr, "[%s] value is not a valid integer", name);
+    }
     *u64p = strtoull(s, &s, base);
     if (skipspaces(s)[0] || errno)
         return xmlr_fail(xr, "[%s] value is not a valid integer", name);
-- 
2.43.0


From c3fe0a0168dd5f874c08f415a92c4a4469228ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 015/154] fix: iop xml packer: a CDATA string may contain ]]>

The terminator was copied as is, so the document was not well-formed (or
carried elements chosen by the string).
---
 src/iop/xml-pack.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/iop/xml-pack.c b/src/iop/xml-pack.c
index 1755f59..ccabd07 100644
--- a/src/iop/xml-pack.c
+++ b/src/iop/xml-pack.c
@@ -129,8 +129,18 @@ xpack_value(sb_t *sb, const iop_struct_t *desc, const iop_field_t *f,
         if (s->len) {
             attrs = iop_field_get_attrs(desc, f);
             if (attrs && TST_BIT(&attrs->flags, IOP_FIELD_CDATA)) {
+                pstream_t ps = ps_initlstr(s);
+                pstream_t chunk;
+
                 sb_adds(sb, "<![CDATA[");
-                sb_add(sb, s->s, s->len);
+                /* A CDATA section cannot contain its own terminator: split
+                 * it in two sections. */
+                while (ps_get_ps_upto_data(&ps, "]]>", 3, &chunk) >= 0) {
+                    sb_add_ps(sb, chunk);
+                    sb_adds(sb, "]]]]><![CDATA[>");
+                    __ps_skip(&ps, 3);
+                }
+                sb_add_ps(sb, ps);
                 sb_adds(sb, "]]>");
             } else {
                 sb_add_lstr_xmlescape(sb, *s);
-- 
2.43.0


From c99d860701944402cc2053b3609b818faeb38cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:42 +0000
Subject: [PATCH 016/154] fix: iop xml unpacker: unions and void fields

An empty element following the member of a union was taken for the end of
the union, which shifted the end of all the enclosing elements. A void field
at the end of a truncated document was read forever.
---
 src/iop/xml-unpack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/iop/xml-unpack.c b/src/iop/xml-unpack.c
index f4c7d13..9f1b62d 100644
--- a/src/iop/xml-unpack.c
+++ b/src/iop/xml-unpack.c
@@ -232,8 +232,8 @@ static int xunpack_value(xml_reader_t xr, mem_pool_t *mp,
 
         do {
             i++;
-            xmlr_next_sibling(xr);
-        } while (xmlr_node_is(xr, fdesc->name.s, fdesc->name.len));
+            RETHROW(xmlr_next_sibling(xr));
+        } while (RETHROW(xmlr_node_is(xr, fdesc->name.s, fdesc->name.len)));
 
         e_named_trace(3, "iop/xml/unpacker", "dropped %d value(s) into void "
                       "field `%*pM`", i, LSTR_FMT_ARG(fdesc->name));
@@ -658,6 +658,9 @@ xunpack_union(xml_reader_t xr, mem_pool_t *mp, const iop_struct_t *desc,
             return xmlr_fail(xr, "%*pM", LSTR_FMT_ARG(iop_get_err_lstr()));
         }
     }
+    if (!RETHROW(xmlr_node_is_closing(xr))) {
+        return xmlr_fail(xr, "closing tag expected");
+    }
     return xmlr_node_close(xr);
 }
 
-- 
2.43.0


From 3cd3ea7b52d55efcb37c8fb3b717f0a7bda167fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 017/154] fix: keep the sign of a zero double in YAML

---
 src/core/yaml.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 891c4b8..a15147b 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -387,6 +387,9 @@ t_yaml_scalar_to_string(const yaml_scalar_t * nonnull scalar)
         } else
         if (isnan(scalar->d)) {
             return LSTR(".NaN");
+        } else
+        if (scalar->d == 0 && signbit(scalar->d)) {
+            return LSTR("-0.0");
         } else {
             return t_lstr_fmt("%.17g", scalar->d);
         }
@@ -4032,6 +4035,10 @@ yaml_pack_scalar(yaml_pack_env_t * nonnull env,
         } else
         if (isnan(scalar->d)) {
             PUTS(".NaN");
+        } else
+        if (scalar->d == 0 && signbit(scalar->d)) {
+            /* "-0" would be parsed as an integer, which has no sign for 0 */
+            PUTS("-0.0");
         } else {
             WRITE(ibuf, sprintf(ibuf, "%.17g", scalar->d));
         }
-- 
2.43.0


From a58ae5b5af8409324b4b953c8f99a2ee814a8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 018/154] fix: do not keep pointers to moved data in YAML flow
 collections

---
 src/core/yaml.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index a15147b..d083456 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -664,15 +664,21 @@ yaml_env_start_data(yaml_parse_t * nonnull env, yaml_data_type_t type,
     yaml_env_start_data_with_pos(env, type, yaml_env_get_pos(env), true, out);
 }
 
+/* Must be called again if the data is moved after having been parsed. */
+static void
+yaml_env_set_last_data(yaml_parse_t * nonnull env, yaml_data_t * nonnull data)
+{
+    if (env->pres) {
+        env->pres->last_node = &data->presentation;
+    }
+}
+
 static void
 yaml_env_end_data_with_pos(yaml_parse_t * nonnull env, yaml_pos_t pos_end,
                            yaml_data_t * nonnull out)
 {
     out->span.end = pos_end;
-
-    if (env->pres) {
-        env->pres->last_node = &out->presentation;
-    }
+    yaml_env_set_last_data(env, out);
 }
 
 static void
@@ -2393,6 +2399,7 @@ t_yaml_env_parse_flow_seq(yaml_parse_t *env, yaml_data_t *out)
         } else {
             qv_append(&datas, kd.data);
         }
+        yaml_env_set_last_data(env, tab_last(&datas));
 
         RETHROW(yaml_env_ltrim(env));
         switch (ps_peekc(env->ps)) {
@@ -2461,6 +2468,7 @@ t_yaml_env_parse_flow_obj(yaml_parse_t *env, yaml_data_t *out)
                                        "object");
         }
         qv_append(&fields, kd);
+        yaml_env_set_last_data(env, &tab_last(&fields)->data);
 
         RETHROW(yaml_env_ltrim(env));
         switch (ps_peekc(env->ps)) {
-- 
2.43.0


From add890230c817996f92e90f2a32cc97b4e5b5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 019/154] fix: YAML comment in a flow collection before any
 data

---
 src/core/yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index d083456..b13ec06 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -906,7 +906,9 @@ static void t_yaml_env_handle_comment_ps(yaml_parse_t * nonnull env,
      */
     comment = lstr_rtrim(LSTR_PS_V(&comment_ps));
 
-    if (prefix) {
+    /* If no data has been parsed yet, the comment can only apply to the next
+     * one. */
+    if (prefix || !env->pres->last_node) {
         if (prefix_comments->len == 0) {
             t_qv_init(prefix_comments, 1);
         }
-- 
2.43.0


From 52a28c7668c54d6cf31711ff0471d89e9fcb3fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 020/154] fix: report the error on the characters after a YAML
 document

---
 src/core/yaml.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index b13ec06..5bb2f76 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3193,7 +3193,10 @@ int t_yaml_parse(yaml_parse_t *env, yaml_data_t *out, sb_t *out_err)
         goto end;
     }
 
-    RETHROW(yaml_env_ltrim(env));
+    if (yaml_env_ltrim(env) < 0) {
+        res = -1;
+        goto end;
+    }
     if (!ps_done(&env->ps)) {
         yaml_env_set_err(env, YAML_ERR_EXTRA_DATA,
                          "expected end of document");
-- 
2.43.0


From 875af997fe066fb9b4afbe161b055f0f183d5936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 021/154] fix: quote the YAML strings that look like a null, in
 any case

---
 src/core/yaml.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 5bb2f76..41500fd 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3902,7 +3902,8 @@ yaml_string_must_be_quoted(const lstr_t s,
     if (lstr_startswith(s, LSTR(" ")) || lstr_endswith(s, LSTR(" "))) {
         return true;
     }
-    if (lstr_equal(s, LSTR("~")) || lstr_equal(s, LSTR("null"))) {
+    /* cannot be mistaken for a null scalar, which is case insensitive */
+    if (lstr_equal(s, LSTR("~")) || lstr_ascii_iequal(s, LSTR("null"))) {
         return true;
     }
 
-- 
2.43.0


From a8183cda0ad593220b3cfc17695bcf29af3d0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 022/154] fix: quote the binary YAML values that look like
 another scalar

---
 src/core/yaml.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 41500fd..d71314c 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4082,8 +4082,23 @@ yaml_pack_scalar(yaml_pack_env_t * nonnull env,
         t_scope;
         t_SB_1k(sb);
 
+        yaml_scalar_t parsed;
+        lstr_t b64;
+
         sb_add_lstr_b64(&sb, scalar->s, -1);
-        res += yaml_pack_string(env, LSTR_SB_V(&sb), pres);
+        b64 = LSTR_SB_V(&sb);
+        if (b64.len > 0
+        &&  (yaml_parse_special_scalar(b64, &parsed) >= 0
+         ||  yaml_parse_numeric_scalar(b64, &parsed) >= 0))
+        {
+            /* The binary tag can only be used on strings, so the value must
+             * be quoted when it looks like another kind of scalar. */
+            PUTS("\"");
+            PUTLSTR(b64);
+            PUTS("\"");
+        } else {
+            res += yaml_pack_string(env, b64, pres);
+        }
       } break;
     }
 
-- 
2.43.0


From a85401b03ca266dd343eb72b15ca7385387a7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 023/154] fix: quote the strings with flow indicators in YAML
 flow mode

---
 src/core/yaml.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index d71314c..cb7171e 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4498,10 +4498,28 @@ static int yaml_pack_flow_data(yaml_pack_env_t * nonnull env,
     assert (!data->tag.s);
 
     switch (data->type) {
-      case YAML_DATA_SCALAR:
+      case YAML_DATA_SCALAR: {
+        /* s:'[]{},' */
+        static ctype_desc_t const flow_indicators = { {
+            0x00000000, 0x00001000, 0x28000000, 0x28000000,
+            0x00000000, 0x00000000, 0x00000000, 0x00000000,
+        } };
+        const yaml__presentation_node__t *pres = NULL;
+        yaml__presentation_node__t quoted_pres;
+
+        if (data->scalar.type == YAML_SCALAR_STRING) {
+            pstream_t ps = ps_initlstr(&data->scalar.s);
+
+            if (ps_has_char_in_ctype(&ps, &flow_indicators)) {
+                /* Those characters delimit the plain scalars in flow mode. */
+                iop_init(yaml__presentation_node, &quoted_pres);
+                quoted_pres.quoted = true;
+                pres = &quoted_pres;
+            }
+        }
         res += RETHROW(yaml_pack_scalar(env, &data->scalar, LSTR_NULL_V,
-                                        NULL));
-        break;
+                                        pres));
+      } break;
       case YAML_DATA_SEQ:
         res += RETHROW(yaml_pack_flow_seq(env, data->seq));
         break;
-- 
2.43.0


From f19c8f1ac540f3972accd3f88a27d207b5745065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 024/154] fix: do not use the YAML flow mode for binary values

---
 src/core/yaml.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index cb7171e..8160413 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4561,7 +4561,8 @@ static bool yaml_data_contains_tags(const yaml_data_t * nonnull data)
 
     switch (data->type) {
       case YAML_DATA_SCALAR:
-        break;
+        /* packed with a binary tag */
+        return data->scalar.type == YAML_SCALAR_BYTES;
       case YAML_DATA_SEQ:
         tab_for_each_ptr(elem, &data->seq->datas) {
             if (yaml_data_contains_tags(elem)) {
-- 
2.43.0


From 04e7bb1d0c1c5643b92a8519eadea2c6d6238138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:56 +0000
Subject: [PATCH 025/154] fix: enumerate WAH literal chunks without run at any
 position

__wah_word_enum_start() set the position after the literals as if the chunk
was the first one of its bucket.
---
 src/core/bit-wah.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index 66f5dbf..2b36975 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -49,7 +49,7 @@ static void __wah_word_enum_start(wah_word_enum_t *en, qv_t(wah_word) *bucket)
         en->state        = WAH_ENUM_LITERAL;
         en->remain_words = bucket->tab[en->pos + 1].count;
         en->current      = bucket->tab[en->pos + 2].literal;
-        en->pos          = bucket->tab[en->pos + 1].count + 2;
+        en->pos         += bucket->tab[en->pos + 1].count + 2;
         assert (en->pos <= bucket->len);
         assert ((int)en->remain_words <= en->pos);
     } else {
-- 
2.43.0


From dde7934665b8a9ac0a093f91b6bc898f1fc000c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:43 +0000
Subject: [PATCH 026/154] fix: count the run of a WAH chunk split over buckets
 at reload

from_data_split_chunk() did not add the bits of the run to the length of the
bucket when it fits, so the literals were split at a wrong place.
---
 src/core/bit-wah.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index 2b36975..2d92f16 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1526,6 +1526,7 @@ from_data_split_chunk(from_data_ctx_t *ctx, wah_header_t head, uint64_t words)
     } else {
         /* The run fits, copy it. */
         qv_append(ctx->bucket, (wah_word_t){ .head = head});
+        ctx->bucket_len += head.words * WAH_BIT_IN_WORD;
     }
 
     /* We now have to deal with the uncompressed words. */
-- 
2.43.0


From a45d603498a58afe40ea1e548ed9ee7aa5747f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:43 +0000
Subject: [PATCH 027/154] fix: reload of WAH bitmaps that end on a full bucket

The position of the last run was lost when the last bucket was exactly full,
which breaks the invariant checked on every bitmap.
---
 src/core/bit-wah.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/bit-wah.c b/src/core/bit-wah.c
index 2d92f16..c742369 100644
--- a/src/core/bit-wah.c
+++ b/src/core/bit-wah.c
@@ -1627,8 +1627,10 @@ wah_t *mp_wah_init_from_data(mem_pool_t *mp, wah_t *map, pstream_t data)
                 }
                 ctx.bucket = NULL;
                 ctx.bucket_len = 0;
-                map->previous_run_pos = -1;
-                map->last_run_pos     = -1;
+                if (ctx.pos < size) {
+                    map->previous_run_pos = -1;
+                    map->last_run_pos     = -1;
+                }
                 goto next;
             }
 
-- 
2.43.0


From cf2daec052f848fe150253cc9f5a9cc8135df9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:34 +0000
Subject: [PATCH 028/154] fix: out-of-bounds access in bb_shift_left() on a
 full bit buffer

When the length is a multiple of 64 bits, the word after the last one was read
and written: it may not exist, and its content could be shifted in the buffer.
---
 src/core/bit-buf.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/bit-buf.c b/src/core/bit-buf.c
index d1fbff3..bddde89 100644
--- a/src/core/bit-buf.c
+++ b/src/core/bit-buf.c
@@ -151,12 +151,13 @@ void bb_shift_left(bb_t *bb, size_t shift)
     } else {
         const size_t nwords = shift / 64, wshift = shift % 64;
         const size_t rwshift = 64 - wshift;
+        const size_t last = DIV_ROUND_UP(bb->len, 64) - 1;
         size_t src = nwords, dst = 0;
 
         /* We have to shift the bit-buffer word per word… Here we are allowed
          * to overflow a little because we know that we are always aligned on
          * 8 bytes. */
-        while (src < bb->word) {
+        while (src < last) {
             /* Copy the bits from src which have to be shifted in dst */
             bb->data[dst++] = ((bb->data[src] >> wshift)
                                | (bb->data[src + 1] << rwshift));
@@ -167,8 +168,8 @@ void bb_shift_left(bb_t *bb, size_t shift)
         bb->data[dst] = (bb->data[src] >> wshift);
 
         /* Now we have to cleanup the old bits */
-        if (dst < bb->word) {
-            p_clear(&bb->data[dst + 1], bb->word - dst);
+        if (dst < last) {
+            p_clear(&bb->data[dst + 1], last - dst);
         }
 
         bb->len -= shift;
-- 
2.43.0


From ba5c253862a0a2dd9bed3a4683ae29f3dd19bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:33 +0000
Subject: [PATCH 029/154] fix: division by zero in base64 encoding with a width
 below 4

---
 src/core/str-buf-quoting.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 9c84a34..22424cc 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -731,6 +731,10 @@ void sb_add_b64_start(sb_t *dst, int len, int width, sb_b64_ctx_t *ctx)
     if (width == 0) {
         width = 19; /* 76 characters + \r\n */
     } else {
+        if (width > 0 && width < 4) {
+            /* a line holds at least one pack */
+            width = 4;
+        }
         /* XXX: >>2 keeps the sign, unlike /4 */
         width >>= 2;
     }
-- 
2.43.0


From f87746512263568351640981456d0d231ec5415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 030/154] fix: handling of the invalid escapes in
 sb_urldecode()

---
 src/core/str-buf-quoting.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 22424cc..c0bf11e 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -402,17 +402,13 @@ void sb_urldecode(sb_t *sb)
     for (;;) {
         int c;
 
-        if (end - r < 3) {
-            *w++ = *r++;
-            continue;
-        }
-        c = hexdecode(r + 1);
+        c = end - r < 3 ? -1 : hexdecode(r + 1);
         if (c < 0) {
             *w++ = *r++;
-            continue;
+        } else {
+            *w++ = c;
+            r   += 3;
         }
-        *w++ = c;
-        r   += 3;
 
         r = memchr(tmp = r, '%', end - r);
         if (!r) {
-- 
2.43.0


From 5bd550181f1812f0fc2fcb3c8f61c808acc3c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 031/154] fix: out-of-bounds read in sb_add_qpe() of an empty
 text

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index c0bf11e..1f15228 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -650,7 +650,7 @@ void sb_add_qpe(sb_t *sb, const void *data, int len)
         j = i;
     }
     sb_add(sb, src + j, i - j);
-    if (sb->data[sb->len - 1] != '\n')
+    if (len > 0 && sb->data[sb->len - 1] != '\n')
         sb_adds(sb, "=\r\n");
 }
 SB_DEFINE_ADDS(qpe);
-- 
2.43.0


From 099c285075233b8352d8100eea0cf4fb669a47c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:13 +0000
Subject: [PATCH 032/154] fix: numeric character references in
 sb_add_xmlunescape()

References without digits, negative or above U+10FFFF were accepted, and
the ones to the characters of the plane 16 were refused.
---
 src/core/str-buf-quoting.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 1f15228..d899c17 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -540,21 +540,27 @@ int sb_add_xmlunescape(sb_t *sb, const void *data, int len)
             goto error;
 
         if (*p == '#') {
+            int base = 10;
             int c = 0;
 
-            if (semi - p > 7)
+            p++;
+            if (*p == 'x') {
+                base = 16;
+                p++;
+            }
+            if (p == semi) {
                 goto error;
+            }
+            for (; p < semi; p++) {
+                int digit = hexdigit(*p);
 
-            if (p[1] == 'x') {
-                for (p += 2; p < semi; p++) {
-                    c = (c << 4) | hexdigit(*p);
-                }
-                if (c < 0)
+                if (digit < 0 || digit >= base) {
                     goto error;
-            } else {
-                c = memtoip(p + 1, semi - p - 1, (const byte **)&p);
-                if (p != semi)
+                }
+                c = c * base + digit;
+                if (c > 0x10ffff) {
                     goto error;
+                }
             }
             sb_adduc(sb, c);
         } else {
-- 
2.43.0


From 167ccca16a8a67e88e7d7bde56094ef914dbb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 033/154] fix: sb_add_expandenv() dropped what follows an
 escaped dollar

---
 src/core/str-buf-quoting.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index d899c17..192d14f 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -242,7 +242,7 @@ int sb_add_expandenv(sb_t *sb, const void *data, int len)
         sb_add_unslashes(sb, n.s, ps_len(&n), "$", "$");
 
         if (!has_env) {
-            break;
+            continue;
         }
 
         if (ps_skipc(&ps, '{') < 0) {
-- 
2.43.0


From 285bfc98fffade2e74cd03dcf348f6856a8cd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 034/154] fix: last part of ps_split_escaped()

The byte past the end of the stream was read, and the last part was
allocated on the stack pool instead of the requested one.
---
 src/core/str-stream.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.c b/src/core/str-stream.c
index e69aa2f..53bf9b9 100644
--- a/src/core/str-stream.c
+++ b/src/core/str-stream.c
@@ -180,6 +180,9 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
         tmp = ps_get_cspan(&ps, &sep_esc);
         sb_add(&sb, tmp.s, tmp.s_end - tmp.s);
 
+        if (ps_done(&ps)) {
+            break;
+        }
         if (ctype_desc_contains(sep, *ps.s)) {
             if (mp) {
                 qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
@@ -219,6 +222,13 @@ void ps_split_escaped(mem_pool_t *nullable mp, pstream_t ps,
     if (!(flags & PS_SPLIT_SKIP_EMPTY)  /* last character is a separator */
     ||  (sb.len != 0))                  /* last character is an escape */
     {
-        qv_append(res, t_lstr_dup(LSTR_SB_V(&sb)));
+        if (mp) {
+            qv_append(res, mp_lstr_dup(mp, LSTR_SB_V(&sb)));
+        } else {
+            lstr_t dst = LSTR_NULL;
+
+            lstr_transfer_sb(&dst, &sb, false);
+            qv_append(res, dst);
+        }
     }
 }
-- 
2.43.0


From 349d2107dffe27aa359cc89b53dadb0e3f5eeb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 035/154] fix: overflows in the punycode encoding of long texts

---
 src/core/str-buf-quoting.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/str-buf-quoting.c b/src/core/str-buf-quoting.c
index 192d14f..72391bc 100644
--- a/src/core/str-buf-quoting.c
+++ b/src/core/str-buf-quoting.c
@@ -997,7 +997,8 @@ void sb_add_csvescape(sb_t *sb, int sep, const void *data, int len)
 #define PUNYCODE_INITIAL_BIAS  72
 #define PUNYCODE_INITIAL_N     0x80
 
-static int punycode_adapt_bias(int delta, int numpoints, bool firsttime)
+static int
+punycode_adapt_bias(uint32_t delta, int numpoints, bool firsttime)
 {
     int k = 0;
 
@@ -1099,7 +1100,7 @@ int sb_add_punycode_vec(sb_t *sb, const uint32_t *code_points,
         uint32_t m = point_pos_pairs[i] >> 32;
         uint32_t last_pos = 0;
 
-        delta += (m - n) * (h + 1);
+        delta += (uint64_t)(m - n) * (h + 1);
         n = m;
 
         while (i < point_pos_pairs_len && point_pos_pairs[i] >> 32 == m) {
-- 
2.43.0


From 044e170a07243cd9cecfec93a3a3c7546f9d8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:31 +0000
Subject: [PATCH 036/154] fix: refuse every negative number when parsing an
 unsigned integer

The numbers below -2^63 were taken for positive ones.
---
 src/core/str-num.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index e2023e8..6e65202 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -199,7 +199,7 @@ uint64_t memtoullp(const void *s, int len, const byte **endp)
     }
 
     res = strtoull(str, &tail, 10);
-    if ((int64_t)res < 0 && mem_startswith_minus(str, tail - str)) {
+    if (res && mem_startswith_minus(str, tail - str)) {
         errno = ERANGE;
         return 0;
     }
@@ -417,7 +417,7 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
     } else {
         uint64_t val = strtoull(s, &tail, base);
 
-        if ((int64_t)val < 0 && mem_startswith_minus(s, tail - s)) {
+        if (val && mem_startswith_minus(s, tail - s)) {
             errno = ERANGE;
             return -1;
         }
-- 
2.43.0


From f3e813441db56de9294941fc1a140e013722a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 037/154] fix: out-of-bounds read in mem_to(u)ll_ext() of blank
 texts

---
 src/core/str-num.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index 6e65202..bee3bf7 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -405,7 +405,9 @@ memtoxll_ext(const void *p, int len, bool is_signed, uint64_t *out,
         }
 
         last_char = s[len - 1];
-        if (isalnum(last_char) || last_char == '+' || last_char == '-') {
+        if (isalnum(last_char) || last_char == '+' || last_char == '-'
+        ||  isspace(last_char))
+        {
             s = t_dupz(p, len);
         }
     } else {
-- 
2.43.0


From 48e81468d081f4057b97ed0017bd7439171bebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:59 +0000
Subject: [PATCH 038/154] fix: overflow detection and negative fractions in
 parse_number()

The test on overflows was reversed: 1T or 3000000000 were refused.
---
 src/core/str-num.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/str-num.c b/src/core/str-num.c
index bee3bf7..195f5e6 100644
--- a/src/core/str-num.c
+++ b/src/core/str-num.c
@@ -112,9 +112,11 @@ int64_t parse_number(const char *str)
 {
     int64_t value;
     int64_t mult = 1;
+    int64_t res;
     int frac = 0;
     int denom = 1;
     int exponent;
+    bool neg = *skipspaces(str) == '-';
 
     value = strtoll(str, &str, 0);
     if (*str == '.') {
@@ -171,11 +173,14 @@ int64_t parse_number(const char *str)
     if (*str != '\0') {
         return INVALID_NUMBER;
     }
-    /* Catch most overflow cases */
-    if ((value | mult) > INT32_MAX && INT64_MAX / mult > value) {
+    if (__builtin_mul_overflow(value, mult, &res)) {
         return INVALID_NUMBER;
     }
-    return value * mult + frac * mult / denom;
+    mult = (__int128)frac * mult / denom;
+    if (__builtin_add_overflow(res, neg ? -mult : mult, &res)) {
+        return INVALID_NUMBER;
+    }
+    return res;
 }
 
 static bool mem_startswith_minus(const void *p, int len)
-- 
2.43.0


From cc543145a1112e90440ab010a3ad9ec0e93a0c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:52 +0000
Subject: [PATCH 039/154] fix: stale bytes in blocks grown in place in fifo
 pools

A block that was shrunk and then grown past its first size with p_realloc0
kept the bytes of its first life.
---
 src/core/mem-fifo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/mem-fifo.c b/src/core/mem-fifo.c
index c306dd1..15e405b 100644
--- a/src/core/mem-fifo.c
+++ b/src/core/mem-fifo.c
@@ -374,6 +374,11 @@ static void *mfp_realloc(mem_pool_t *_mfp, void *mem, size_t oldsize,
         mem_tool_freelike(mem, oldsize, 0);
         mem_tool_malloclike(mem, req_size, 0, false);
         mem_tool_allow_memory(mem, MIN(req_size, oldsize), true);
+        if (!(flags & MEM_RAW) && oldsize < alloced_size) {
+            /* The block may have been shrunk: the bytes up to alloced_size
+             * may have been written. */
+            memset(blk->area + oldsize, 0, alloced_size - oldsize);
+        }
     } else {
         void *old = mem;
 
-- 
2.43.0


From 4bfe7846d9d1d9a4c9ddc76ccb9ddcc785ee695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:52 +0000
Subject: [PATCH 040/154] fix: buffer overflow when shrinking aligned blocks in
 libc_realloc()

The whole old size was copied in the new, smaller, block when realloc()
did not return a block with the wanted alignment.
---
 src/core/mem.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mem.blk b/src/core/mem.blk
index 2bf269b..e5d1a3c 100644
--- a/src/core/mem.blk
+++ b/src/core/mem.blk
@@ -124,7 +124,7 @@ static void *libc_realloc(mem_pool_t *m, void *mem, size_t oldsize,
     if (alignment > 8 && ((uintptr_t)res & (alignment - 1))) {
         byte *cpy = libc_malloc(m, size, alignment, flags | MEM_RAW);
 
-        p_copy(cpy, res, oldsize == MEM_UNKNOWN ? size : oldsize);
+        p_copy(cpy, res, MIN(oldsize, size));
         free(res);
         res = cpy;
     }
-- 
2.43.0


From 209b7431239c007153051107be59e766cccd66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:41 +0000
Subject: [PATCH 041/154] fix: alignment of small blocks in ring pools

The wanted alignment was ignored: the blocks were only aligned according to
their size.
---
 src/core/mem-ring.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 490427f..23c390d 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -124,9 +124,9 @@ static inline bool is_aligned_to(const void *addr, size_t boundary)
     return ((uintptr_t)addr & (boundary - 1)) == 0;
 }
 
-static byte *align_for(const void *mem, size_t size)
+static byte *align_for(const void *mem, size_t size, size_t alignment)
 {
-    size_t bmask = align_boundary(size) - 1;
+    size_t bmask = MAX(align_boundary(size), alignment) - 1;
     return (byte *)(((uintptr_t)mem + bmask) & ~bmask);
 }
 
@@ -203,9 +203,10 @@ frame_get_next_blk(ring_pool_t *rp, size_t size)
     return blk_create(rp, size);
 }
 
-static void *rp_reserve(ring_pool_t *rp, size_t size, ring_blk_t **blkp)
+static void *rp_reserve(ring_pool_t *rp, size_t size, size_t alignment,
+                        ring_blk_t **blkp)
 {
-    byte *res = align_for(rp->pos, size);
+    byte *res = align_for(rp->pos, size, alignment);
 
     /* Note for programmers: if you abort() here, it's because you're
      * allocating in a pool where you haven't performed a r_newframe() first
@@ -248,7 +249,7 @@ static void *rp_alloc(mem_pool_t *_rp, size_t size, size_t alignment,
     }
 
     spin_lock(&rp->lock);
-    res = rp_reserve(rp, size, &rp->cblk);
+    res = rp_reserve(rp, size, alignment, &rp->cblk);
     rp->pos = res + size;
     rp->last = res;
     spin_unlock(&rp->lock);
@@ -291,7 +292,7 @@ static void *rp_realloc(mem_pool_t *_rp, void *mem, size_t oldsize,
     }
 
     if (mem != NULL && mem == rp->last
-    &&  is_aligned_to(mem, align_boundary(size))
+    &&  is_aligned_to(mem, MAX(align_boundary(size), alignment))
     &&  (byte *)rp->last + size <= blk_end(rp->cblk))
     {
         rp->pos = (byte *)rp->last + size;
@@ -495,7 +496,7 @@ const void *mem_ring_seal(mem_pool_t *_rp)
     ring_blk_t *blk;
 
     /* Makes a new frame */
-    frame = rp_reserve(rp, sizeof(frame_t), &blk);
+    frame = rp_reserve(rp, sizeof(frame_t), alignof(frame_t), &blk);
     ring_setup_frame(rp, blk, frame);
 
     return last;
-- 
2.43.0


From 9031ff6a9706741a3b400832919aabf260622c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 042/154] fix: count the frames released by mem_ring_rewind()

They were counted as in use for ever: the pool could not be reset nor
deleted anymore.
---
 src/core/mem-ring.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 23c390d..19357b7 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -667,6 +667,15 @@ void mem_ring_rewind(mem_pool_t *_rp, const void *ckpoint)
     frame_t *frame = cp->frame;
 
     assert (!(frame->rp & FRAME_IS_FREE));
+    /* The frames still in use that were created since the checkpoint are
+     * released. */
+    for (dlist_t *e = frame->flist.next; e != &rp->fhead; e = e->next) {
+        frame_t *f = dlist_entry(e, frame_t, flist);
+
+        if (!(f->rp & FRAME_IS_FREE) && (f != rp->ring || rp->pos)) {
+            rp->frames_cnt--;
+        }
+    }
     __dlist_remove(&frame->flist, &rp->fhead);
     rp->ring = frame;
     rp->last = cp->last;
-- 
2.43.0


From 69653b88e4f30a32bb138c1458157c8a1eff2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:31 +0000
Subject: [PATCH 043/154] fix: reallocation of an empty block to 0 in a new
 ring pool frame

When nothing is allocated yet in the frame, rp->last is NULL: the position
of the frame was reset, and the next allocation asserted.
---
 src/core/mem-ring.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index 19357b7..b8c5fdf 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -284,7 +284,7 @@ static void *rp_realloc(mem_pool_t *_rp, void *mem, size_t oldsize,
     }
 
     if (oldsize >= size) {
-        if (mem == rp->last) {
+        if (mem != NULL && mem == rp->last) {
             rp->pos = (byte *)mem + size;
         }
         mem_tool_disallow_memory((byte *)mem + size, oldsize - size);
-- 
2.43.0


From c6789fe808a98f3fe867f992b3dc5e0970e0cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:35 +0000
Subject: [PATCH 044/154] fix: release of the active ring pool frame after a
 released one

The released frame was left open, at the position of the last allocation:
the next mem_ring_newframe() panicked.
---
 src/core/mem-ring.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mem-ring.c b/src/core/mem-ring.c
index b8c5fdf..5a000af 100644
--- a/src/core/mem-ring.c
+++ b/src/core/mem-ring.c
@@ -372,6 +372,8 @@ void ring_reset_to_prevframe(ring_pool_t *rp, frame_t *fprev, frame_t *frame)
 
     frame_unregister(frame);
     rp->ring   = fprev;
+    rp->last   = NULL;
+    rp->pos    = NULL;
     rp->cblk   = fprev->blk;
     fprev->rp &= ~FRAME_IS_FREE;
 }
-- 
2.43.0


From 3ad40c9fcb287f7e72e5050f91f5844b53a46592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:14 +0000
Subject: [PATCH 045/154] fix: keys skipped by the enumeration of qhats

When there is nothing left in a dispatch node, the enumeration must go on at
the beginning of the next one, not at the same offset in it.
---
 src/core/qps-hat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/qps-hat.c b/src/core/qps-hat.c
index 6ceafda..adc6332 100644
--- a/src/core/qps-hat.c
+++ b/src/core/qps-hat.c
@@ -1927,7 +1927,7 @@ void qhat_tree_enumerator_find_node(qhat_tree_enumerator_t *en, uint32_t key)
     en->path.depth--;
 
     shift   = qhat_depth_shift(hat, en->path.depth);
-    new_key = key + (1UL << shift);
+    new_key = qhat_depth_prefix(hat, key, en->path.depth) + (1UL << shift);
     if (shift == 32) {
         en->end = true;
     } else {
-- 
2.43.0


From 34973cd0e76020dc1c5d463fd473b162ef1d1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:25 +0000
Subject: [PATCH 046/154] fix: endless safe enumeration of qhats

When the qhat changes while the enumerator is on the key UINT32_MAX, the
enumeration started again from the beginning.
---
 src/core/qps-hat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/qps-hat.c b/src/core/qps-hat.c
index adc6332..3e0a9d1 100644
--- a/src/core/qps-hat.c
+++ b/src/core/qps-hat.c
@@ -1598,6 +1598,10 @@ uint32_t qhat_tree_enumerator_next(qhat_tree_enumerator_t *en, bool safe)
 {
     if (safe) {
         if (unlikely(!qhat_path_is_sync(&en->path))) {
+            if (unlikely(en->key == UINT32_MAX)) {
+                en->end = true;
+                return en->key;
+            }
             en->key++;
             qhat_tree_enumerator_refresh_path(en);
             return en->key;
-- 
2.43.0


From a6ae598181c347080e3fc296b91fa266ea905d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:21 +0000
Subject: [PATCH 047/154] fix: qhat paths marked as resolved by accesses that
 did not resolve them

A remove or a set0 of an absent key of a nullable trie does not look at the
tree: the path must not be considered in sync after it. Otherwise the next
set through the path overwrote a whole node of the tree.
---
 src/qps-hat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qps-hat.h b/src/qps-hat.h
index 66ac681..d59bf82 100644
--- a/src/qps-hat.h
+++ b/src/qps-hat.h
@@ -293,7 +293,7 @@ static ALWAYS_INLINE void qhat_path_touch(qhat_path_t *path)
 {
 #ifndef NDEBUG
     path->hat->gen.s.write_access_gen++;
-    path->gen = path->hat->gen;
+    path->gen.s.write_access_gen = path->hat->gen.s.write_access_gen;
 #endif /* NDEBUG */
 }
 
-- 
2.43.0


From dc1cd3d173bc7a243cbf94dfb6ae4c54fa62a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:46 +0000
Subject: [PATCH 048/154] fix: do not overread the input in
 qlzo1x_decompress_safe

Short literal runs were copied 4 octets at a time, even when less than 4
octets were left in the input.
---
 src/core/qlzo-d.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/qlzo-d.c b/src/core/qlzo-d.c
index 89f257d..c7c2a29 100644
--- a/src/core/qlzo-d.c
+++ b/src/core/qlzo-d.c
@@ -54,14 +54,15 @@ int lzo_copy_input(pstream_t *in, ostream_t *os, unsigned sz)
 
 /* XXX: assumes sz <= 4 */
 static ALWAYS_INLINE
-int lzo_copy_input_small(pstream_t *in, ostream_t *os, unsigned sz)
+int lzo_copy_input_small(pstream_t *in, ostream_t *os, unsigned sz,
+                         bool safe)
 {
     const uint8_t *src = in->b;
     uint8_t *dst = os->b;
 
     if (unlikely(!ps_has(in, sz)))
         return LZO_ERR_INPUT_OVERRUN;
-    if (likely(dst + 4 <= os->b_end)) {
+    if (likely(dst + 4 <= os->b_end) && (!safe || likely(ps_has(in, 4)))) {
         put_unaligned_cpu32(dst, get_unaligned_cpu32(src));
     } else {
         if (unlikely(dst + sz > os->b_end))
@@ -199,7 +200,7 @@ static ssize_t decompress(void *_out, size_t outlen, pstream_t in, bool safe)
         }
 
         while ((sz = (u & 3))) {
-            RETHROW(lzo_copy_input_small(&in, &os, sz));
+            RETHROW(lzo_copy_input_small(&in, &os, sz, safe));
             SAFE_CHECK_LEN(1);
             if ((u = in.b[0]) >= LZO_M4_MARKER)
                 goto match_2to4;
-- 
2.43.0


From f6f88ba96f2d4177a6bf0a3ebcc2ae65e3d9bbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:08 +0000
Subject: [PATCH 049/154] fix: ignore an already processed tail in
 murmur_hash3_x64_128_finish

When the data was given in several pieces and its total length was a
multiple of 16, the last tail was processed twice.
---
 src/crypto/hash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypto/hash.c b/src/crypto/hash.c
index 422f147..a5d9425 100644
--- a/src/crypto/hash.c
+++ b/src/crypto/hash.c
@@ -685,7 +685,9 @@ void murmur_hash3_x64_128_finish(murmur_hash3_x64_128_ctx_t *ctx,
     uint64_t h2 = ctx->h2;
 
     /* Tail */
-    __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    if (ctx->tail_len) {
+        __murmur_hash3_x64_128_process_tail(ctx->tail, &h1, &h2);
+    }
 
     /* Finalization */
     __murmur_hash3_x64_128_finalize(h1, h2, ctx->len, out);
-- 
2.43.0


From f55eceef94db802f172d425195bd6734c66482a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:51 +0000
Subject: [PATCH 050/154] fix: make room for the last block in
 ssl_{encrypt,decrypt}_finish

An update can output up to one block less one octet more than its input, so
the room it reserves does not always leave a block for the finalisation.
---
 src/crypto/ssl.blk | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crypto/ssl.blk b/src/crypto/ssl.blk
index 85d1615..c936130 100644
--- a/src/crypto/ssl.blk
+++ b/src/crypto/ssl.blk
@@ -317,9 +317,9 @@ int ssl_encrypt_finish(ssl_ctx_t *ctx, sb_t *out)
     int outlen = 0;
 
     assert (ctx->encrypt_state == SSL_CTX_UPDATE);
-    assert (sb_avail(out) >= EVP_CIPHER_CTX_block_size(ctx->encrypt));
     if (unlikely(!EVP_EncryptFinal_ex(ctx->encrypt,
-                                      (unsigned char *)sb_end(out), &outlen)))
+                                      (unsigned char *)sb_grow(
+                    out, EVP_CIPHER_CTX_block_size(ctx->encrypt)), &outlen)))
     {
         ctx->encrypt_state = SSL_CTX_NONE;
         return ssl_set_error("encrypt finalization error");
@@ -388,7 +388,8 @@ int ssl_decrypt_finish(ssl_ctx_t *ctx, sb_t *out)
     assert (ctx->decrypt_state == SSL_CTX_UPDATE);
 
     if (unlikely(!EVP_DecryptFinal_ex(ctx->decrypt,
-                                      (unsigned char *)sb_end(out), &outlen)))
+                                      (unsigned char *)sb_grow(
+                    out, EVP_CIPHER_CTX_block_size(ctx->decrypt)), &outlen)))
     {
         ctx->decrypt_state = SSL_CTX_NONE;
         return ssl_set_error("decrypt finalization error");
-- 
2.43.0


From 65793cad378b1e0cd47693f53fdffc199d004b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 051/154] fix: encode extended integers as unconstrained
 integers in PER

The decoder reads them in two's complement, as X.691 says, but they were
written as unsigned numbers.
---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 19a51ee..376f3f2 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -541,7 +541,7 @@ int aper_encode_number(bb_t *bb, int64_t n, const asn1_int_info_t *info,
             bb_be_add_bit(bb, true);
 
             /* XXX Extension constraints are not PER-visible */
-            aper_write_number(bb, n, NULL);
+            aper_write_2c_number(bb, n, is_signed);
 
             return 0;
         } else {
-- 
2.43.0


From 04073ce3619eba342505f43e1d3937c6db157c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 052/154] fix: refuse BER integers that do not fit in 8-bit
 fields

The first byte of their contents was used as value, and the bytes that
follow were ignored.
---
 src/asn1/writer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index a8146f9..222108b 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1078,10 +1078,18 @@ static int asn1_unpack_value(pstream_t *ps, const asn1_field_t *spec,
 
     switch (spec->type) {
       case ASN1_OBJ_TYPE(bool):
+        if (unlikely(ps_len(&field_ps) != 1)) {
+            e_trace(1, "wrong bool size");
+            return -1;
+        }
         *(bool *)dt = (ps_getc(&field_ps) ? true : false);
         e_trace(4, "value: %s", *(bool *)dt ? "true" : "false");
         break;
       case ASN1_OBJ_TYPE(int8_t):
+        if (unlikely(ps_len(&field_ps) != 1)) {
+            e_trace(1, "wrong int8 size");
+            return -1;
+        }
         *(int8_t *)dt = ps_getc(&field_ps);
         e_trace(4, "value: %d", *(int8_t *)dt);
         break;
@@ -1094,6 +1102,10 @@ static int asn1_unpack_value(pstream_t *ps, const asn1_field_t *spec,
                 return -1;
             }
         }
+        if (unlikely(ps_len(&field_ps) != 1)) {
+            e_trace(1, "wrong uint8 size");
+            return -1;
+        }
         *(uint8_t *)dt = ps_getc(&field_ps);
         e_trace(4, "value: %u", *(uint8_t *)dt);
         break;
-- 
2.43.0


From c64ebe2566c806aaf30c3c93d5896b64ff77dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 053/154] fix: report the values that cannot be encoded in PER
 extensions

The errors were ignored for open types and extension fields, and a
truncated value was encoded.
---
 src/asn1/per.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 376f3f2..81ea4a4 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -743,7 +743,11 @@ aper_encode_field(bb_t *bb, const void *v, const asn1_field_t *field)
         bb_t    buf;
 
         bb_inita(&buf, field->open_type_buf_len);
-        aper_encode_value(&buf, v, field);
+        if (aper_encode_value(&buf, v, field) < 0) {
+            bb_wipe(&buf);
+            bb_pop_mark(bb);
+            return -1;
+        }
 
         if (!buf.len) {
             bb_be_add_byte(&buf, 0);
-- 
2.43.0


From f9897ef2e1b7d1abe7bcf6f4dba10a129eae551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 054/154] fix: PER encoding of arrays of pointers

The pointers themselves were encoded instead of the elements.
---
 src/asn1/per.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index 81ea4a4..daeb44f 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -965,7 +965,12 @@ aper_encode_seq_of_field(bb_t *bb, const asn1_field_t *field,
     size_t field_sz = field->pointed ? sizeof(const void *) : field->size;
 
     for (int i = start; i < end; i++) {
-        if (aper_encode_field(bb, tab + i * field_sz, field) < 0) {
+        const void *v = tab + i * field_sz;
+
+        if (field->pointed) {
+            v = *(const void **)v;
+        }
+        if (aper_encode_field(bb, v, field) < 0) {
             e_error("failed to encode array value [%d] %s:%s",
                     i, field->oc_t_name, field->name);
 
-- 
2.43.0


From 25ab922afe81b0ec4e458dcbbfac1e774265afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 055/154] fix: check of the minimum length of fragmented values
 in PER

It was checked on the first fragment instead of the last one, so valid
values were refused.
---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index daeb44f..fcd4186 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -1461,7 +1461,7 @@ aper_decode_fragment_len(bit_stream_t *bs, aper_len_decoding_ctx_t *ctx)
     /* Check the max length isn't exceeded before any further decoding. */
     RETHROW(aper_len_check_max(ctx, ctx->cumulated_len));
 
-    if (ctx->to_decode < PER_FRAG_16K) {
+    if (!ctx->more_fragments_to_read) {
         /* Reached last fragment. The minimum length can be checked now. */
         RETHROW(aper_len_check_min(ctx, ctx->cumulated_len));
     }
-- 
2.43.0


From e7440be0b6a8b38a73f691c159c78967c201b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:27 +0000
Subject: [PATCH 056/154] fix: refuse invalid BER bit strings

An empty contents was read out of its bounds, and a wrong number of unused
bits made a negative length.
---
 src/asn1/writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index 222108b..594e83b 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1145,6 +1145,12 @@ static int asn1_unpack_value(pstream_t *ps, const asn1_field_t *spec,
         e_trace_hex(4, "value:", field_ps.s, (int)ps_len(&field_ps));
         break;
       case ASN1_OBJ_TYPE(asn1_bit_string_t):
+        if (unlikely(!ps_has(&field_ps, 1) || field_ps.b[0] > 7
+        ||  (field_ps.b[0] && ps_len(&field_ps) == 1)))
+        {
+            e_trace(1, "invalid bit string");
+            return -1;
+        }
         if (copy) {
             ((asn1_bit_string_t *)dt)->data = mp_dup(mem_pool, field_ps.b + 1,
                                                      ps_len(&field_ps) - 1);
-- 
2.43.0


From ae14a7d51d136d535f9dbbf85b32d52b8b7fd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:45 +0000
Subject: [PATCH 057/154] fix: refuse empty integers in PER

They made an undefined shift.
---
 src/asn1/per.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index fcd4186..a239c53 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -1204,6 +1204,11 @@ aper_read_2c_number(bit_stream_t *bs, int64_t *v, bool is_signed)
         goto overflow;
     }
 
+    if (!olen) {
+        e_info("forbidden number length value : 0");
+        return -1;
+    }
+
     if (aper_read_aligned_int(bs, olen, v) < 0) {
         goto not_enough_bytes;
     }
-- 
2.43.0


From bee653701bfbe21d1610bf6749cb6bda8f9169e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:45 +0000
Subject: [PATCH 058/154] fix: BER decoding of untagged choices in choices

Untagged choices were read as tagged ones when found in a choice, and both
them and the pointed alternatives were not handled in sequences of untagged
choices.
---
 src/asn1/writer.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index 594e83b..afae92d 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -1318,6 +1318,11 @@ static int asn1_unpack_field(pstream_t *ps, const asn1_field_t *spec,
     return 0;
 }
 
+static int
+asn1_unpack_u_choice_val(pstream_t *ps, const asn1_field_t *choice_spec,
+                         mem_pool_t *mem_pool, int depth, void *st,
+                         bool copy);
+
 static int asn1_unpack_choice(pstream_t *ps, const asn1_desc_t *_desc,
                               mem_pool_t *mem_pool, int depth, void *st,
                               bool copy, bool indef_len)
@@ -1344,8 +1349,13 @@ static int asn1_unpack_choice(pstream_t *ps, const asn1_desc_t *_desc,
     spec = &desc->desc.fields.tab[choice];
     __asn1_set_int(st, selector_spec, choice);
     e_trace_desc(1, "unpacking", &desc->desc, choice, depth);
-    RETHROW(asn1_unpack_field(ps, spec, mem_pool, depth, st, copy,
-                              indef_len));
+    if (spec->type == ASN1_OBJ_TYPE(UNTAGGED_CHOICE)) {
+        RETHROW(asn1_unpack_u_choice_val(ps, spec, mem_pool, depth, st,
+                                         copy));
+    } else {
+        RETHROW(asn1_unpack_field(ps, spec, mem_pool, depth, st, copy,
+                                  indef_len));
+    }
 
     return 0;
 }
@@ -1445,9 +1455,15 @@ asn1_unpack_seq_of_u_choice(pstream_t *ps, const asn1_field_t *choice_spec,
 
         *(int *)choice_st = choice;
         e_trace_desc(1, "unpacking", &choice_desc->desc, choice, depth + 1);
-        RETHROW(asn1_unpack_value(ps, spec, mem_pool, depth,
-                                  GET_PTR(choice_st, spec, void *),
-                                  copy));
+        if (spec->type == ASN1_OBJ_TYPE(UNTAGGED_CHOICE)) {
+            RETHROW(asn1_unpack_u_choice_val(ps, spec, mem_pool, depth + 1,
+                                             choice_st, copy));
+        } else {
+            void *value = asn1_alloc_if_pointed(spec, mem_pool, choice_st);
+
+            RETHROW(asn1_unpack_value(ps, spec, mem_pool, depth, value,
+                                      copy));
+        }
     }
 
     return 0;
-- 
2.43.0


From a8682e5f9ad0a7780737add23721e80ccdc1702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:16 +0000
Subject: [PATCH 059/154] fix: PER length encoding with size ranges larger than
 2^32

The size of the range was truncated to 32 bits.
---
 src/asn1/per.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index a239c53..ffdc589 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -292,8 +292,8 @@ void aper_write_len(bb_t *bb, size_t l, size_t l_min, size_t l_max,
     assert (!need_fragmentation || !*need_fragmentation);
 
     if (l_max != SIZE_MAX) {
-        uint32_t d_max = l_max - l_min;
-        uint32_t d     = l - l_min;
+        size_t d_max = l_max - l_min;
+        size_t d     = l - l_min;
 
         assert (l <= l_max);
 
-- 
2.43.0


From e830431b0fc4389f290f6d3693b090f772cdac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:16 +0000
Subject: [PATCH 060/154] fix: overflow in the check of PER choice extensions

---
 src/asn1/per.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/per.c b/src/asn1/per.c
index ffdc589..35a0e98 100644
--- a/src/asn1/per.c
+++ b/src/asn1/per.c
@@ -2117,7 +2117,7 @@ t_aper_decode_choice(bit_stream_t *bs, const asn1_desc_t *desc, bool copy,
             return -1;
         }
 
-        if (index + desc->ext_pos >= (size_t)desc->fields.len) {
+        if (index >= (size_t)(desc->fields.len - desc->ext_pos)) {
             e_info("unknown choice extension (index = %zd)", index);
             return -1;
         }
-- 
2.43.0


From a180cb64a417ec75de13d14bf00aec86a6ae0409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:16 +0000
Subject: [PATCH 061/154] fix: overread and overflow in t_asn1_oid_print

The byte that follows the OID was printed as well.
---
 src/asn1/writer.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/asn1/writer.c b/src/asn1/writer.c
index afae92d..ae53ea4 100644
--- a/src/asn1/writer.c
+++ b/src/asn1/writer.c
@@ -99,10 +99,10 @@ const char *t_asn1_oid_print(lstr_t oid)
 {
     static const char digits[10] = "0123456789";
 
-    char *str = t_new_raw(char, oid.len * 4);
+    char *str = t_new_raw(char, MAX(oid.len, 1) * 4);
     char *w = str;
 
-    for (int i = 0;; i++) {
+    for (int i = 0; i < oid.len; i++) {
         uint8_t u = (uint8_t)oid.s[i];
         uint8_t d = u / 10;
         uint8_t c = d / 10;
@@ -118,10 +118,9 @@ const char *t_asn1_oid_print(lstr_t oid)
 
         *w++ = digits[u];
 
-        if (i >= oid.len)
-            break;
-
-        *w++ = '.';
+        if (i < oid.len - 1) {
+            *w++ = '.';
+        }
     }
 
     *w = '\0';
-- 
2.43.0


From d171b132ae07702c42ff96f554b2031a13b6835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:23 +0000
Subject: [PATCH 062/154] fix: fetch a double for %lf and %le in iprintf

On 64 bits, TYPE_long and TYPE_ldouble are the same, and a long double was
fetched for the 'l' modifier.
---
 src/core/str-iprintf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 7425661..2c2af96 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -43,6 +43,7 @@
 
 #define FLAG_WIDTH      0x0080
 #define FLAG_PREC       0x0100
+#define FLAG_LDOUBLE    0x0200
 
 #define TYPE_int        0
 #define TYPE_char       1
@@ -767,6 +768,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
             break;
         case 'L':
             type_flags |= TYPE_ldouble;
+            flags |= FLAG_LDOUBLE;
             format++;
             break;
         }
@@ -1214,7 +1216,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
 #endif
 
                 /* fetch double value */
-                if (type_flags == TYPE_ldouble) {
+                if (flags & FLAG_LDOUBLE) {
                     fpvalue = (double)va_arg(ap, long double);
                 } else {
                     fpvalue = va_arg(ap, double);
-- 
2.43.0


From 794161b67ce4b35bba83362ed65527a27ca821e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:23 +0000
Subject: [PATCH 063/154] fix: keep the inner zeros of 128-bit integers in
 iprintf

---
 src/core/str-iprintf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 2c2af96..6af4056 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -277,7 +277,11 @@ static char *convert_uint128(char *p, uint128_t value, int base)
             uint128_t quot = value / MAX_P10_U64;
             uint64_t rem = value - quot * MAX_P10_U64;
             value = quot;
-            p = convert_ulong(p, rem, 10);
+            /* the remainder holds exactly 19 digits */
+            for (int i = 0; i < 19; i++) {
+                *--p = '0' + (rem % 10);
+                rem /= 10;
+            }
         }
         return convert_ulong(p, value, 10);
     } else
-- 
2.43.0


From 8373944e5ea3d1e5e697d950b56534cb5b5de6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:36 +0000
Subject: [PATCH 064/154] fix: write %F as %f and not as %e in iprintf

---
 src/core/str-iprintf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 6af4056..9f12bc0 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -1230,6 +1230,10 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 dprec = 0;
                 sign = 0;
 
+                if (c == 'F') {
+                    c = 'f';
+                }
+
                 if ((flags & FLAG_PREC) == 0) {
                     prec = 6;
                 } else
-- 
2.43.0


From b14d619e700d091fb50ba37a3586226082be8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:53 +0000
Subject: [PATCH 065/154] fix: do not lose a character in formatter_writef

When the text exactly fills the room that remains (for example when the
free room of a string buffer is exactly the size of the text), its last
character was replaced by a zero.
---
 src/core/str-iprintf.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 9f12bc0..379e32f 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -1724,7 +1724,19 @@ ssize_t formatter_writef(FILE *stream, char *buf, size_t buf_len,
     if (stream) {
         n = vfprintf(stream, fmt, arg_list);
     } else {
+        va_list arg_list2;
+
+        va_copy(arg_list2, arg_list);
         n = vsnprintf(buf, buf_len, fmt, arg_list);
+        if (n > 0 && buf_len > 0 && (size_t)n >= buf_len) {
+            /* The last byte of the buffer was used for the trailing zero,
+             * which formatters do not have to write. */
+            char *s = ivasprintf(fmt, arg_list2);
+
+            buf[buf_len - 1] = s[buf_len - 1];
+            p_delete(&s);
+        }
+        va_end(arg_list2);
     }
     va_end(arg_list);
 
-- 
2.43.0


From 65f107c4f80f838fb3ef21dc16587242bd15c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:10 +0000
Subject: [PATCH 066/154] fix: make %hhd signed in iprintf

The library is built with -funsigned-char.
---
 src/core/str-iprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-iprintf.c b/src/core/str-iprintf.c
index 379e32f..fbc72e7 100644
--- a/src/core/str-iprintf.c
+++ b/src/core/str-iprintf.c
@@ -862,7 +862,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_int;
 
               case TYPE_short:
@@ -915,7 +915,7 @@ static int fmt_output(FILE *stream, char *str, size_t size,
                 int int_value;
 
               case TYPE_char:
-                int_value = (char)va_arg(ap, int);
+                int_value = (signed char)va_arg(ap, int);
                 goto convert_quoted_int;
 
               case TYPE_short:
-- 
2.43.0


From 40bcb85167eaba8b4b914a18925ff407b4acfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 067/154] fix: remove trailing zeros when a tie is rounded down
 in dtoa

%g wrote 8388605 as 8.38860e+06.
---
 src/core/str-dtoa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/str-dtoa.c b/src/core/str-dtoa.c
index 29392f7..9926b8b 100644
--- a/src/core/str-dtoa.c
+++ b/src/core/str-dtoa.c
@@ -2709,6 +2709,11 @@ double _d_; int mode, ndigits, *decpt, *sign; char **rve;
                         }
                     }
                     ++*s++;
+                } else {
+                    /* no trailing zeros in what is returned */
+                    while (s > s0 + 1 && s[-1] == '0') {
+                        s--;
+                    }
                 }
                 break;
             }
-- 
2.43.0


From 185f208701dd798c960d9817ae429016db945785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 068/154] fix: keep what follows a zero in lstr_fmt and
 lstr_vfmt

lstr_t are not limited to text, and t_lstr_fmt did keep it.
---
 src/core/str-l.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/str-l.h b/src/core/str-l.h
index 23584e8..d4d14b6 100644
--- a/src/core/str-l.h
+++ b/src/core/str-l.h
@@ -845,8 +845,9 @@ lstr_t lstr_trim_pkcs7_padding(lstr_t padded);
 /* Format {{{ */
 
 #define lstr_fmt(fmt, ...)                                                   \
-    ({ const char *__s = asprintf(fmt, ##__VA_ARGS__);                       \
-       lstr_init_(__s, strlen(__s), MEM_LIBC); })
+    ({ int __len; const char *__s = mp_fmt(&mem_pool_libc, &__len, fmt,      \
+                                           ##__VA_ARGS__);                   \
+       lstr_init_(__s, __len, MEM_LIBC); })
 
 #define mp_lstr_fmt(mp, fmt, ...)                                            \
     ({ int __len; const char *__s = mp_fmt(mp, &__len, fmt, ##__VA_ARGS__);  \
@@ -856,8 +857,8 @@ lstr_t lstr_trim_pkcs7_padding(lstr_t padded);
 
 
 #define lstr_vfmt(fmt, va)                                                   \
-    ({ const char *__s = vasprintf(fmt, va);                                 \
-       lstr_init_(__s, strlen(__s), MEM_LIBC); })
+    ({ int __len; const char *__s = mp_vfmt(&mem_pool_libc, &__len, fmt, va);\
+       lstr_init_(__s, __len, MEM_LIBC); })
 
 #define mp_lstr_vfmt(mp, fmt, va) \
     ({ int __len; const char *__s = mp_vfmt(mp, &__len, fmt, va); \
-- 
2.43.0


From b8316fb73ab00286471407a078abdadd0519ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 069/154] fix: sb_reset_reverse leaves the buffer without its
 trailing zero

---
 src/core/str-buf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/str-buf.h b/src/core/str-buf.h
index a33d862..519c87f 100644
--- a/src/core/str-buf.h
+++ b/src/core/str-buf.h
@@ -484,6 +484,9 @@ static inline void sb_reset_reverse(sb_t * nonnull sb)
     sb->skip = sb->size - 1;
     /* XXX Keep one byte for '\0'. */
     sb->size = 1;
+    if (sb->data != __sb_slop) {
+        sb->data[0] = '\0';
+    }
 }
 
 int sb_prependvf(sb_t * nonnull sb, const char * nonnull fmt, va_list ap)
-- 
2.43.0


From f9399f0ed400e6f361c676d4066b7fddcb4a3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 070/154] fix: strfind reads past the end of the key table

---
 src/core/str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/str.c b/src/core/str.c
index 8f35095..410d0c9 100644
--- a/src/core/str.c
+++ b/src/core/str.c
@@ -182,9 +182,12 @@ bool strfind(const char *keytable, const char *str, int sep)
     /* initial and trailing separators are optional */
     /* they do not cause the empty string to match */
     for (p = keytable;;) {
-        if (!memcmp(p, str, len) && (p[len] == sep || p[len] == '\0'))
+        if (!strncmp(p, str, len) && (p[len] == sep || p[len] == '\0'))
             return true;
         for (;;) {
+            if (*p == '\0') {
+                return false;
+            }
             p = strchr(p + 1, c);
             if (!p)
                 return false;
-- 
2.43.0


From f048dc6d55dcae1cebf4064d6a265bacea75cbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 071/154] fix: ps_get_block skips past the end when only the
 padding is missing

---
 src/core/str-stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/str-stream.h b/src/core/str-stream.h
index 0bbb5e0..af59792 100644
--- a/src/core/str-stream.h
+++ b/src/core/str-stream.h
@@ -938,7 +938,10 @@ static inline int ps_align(pstream_t * nonnull ps, uintptr_t align)
 static inline const void * nullable
 ps_get_block(pstream_t * nonnull ps, size_t len, size_t align)
 {
-    return unlikely(!ps_has(ps, len)) ? NULL : __ps_get_block(ps, len, align);
+    if (unlikely(!ps_has(ps, (len + align - 1) & ~(align - 1)))) {
+        return NULL;
+    }
+    return __ps_get_block(ps, len, align);
 }
 #define ps_get_type(ps,  type_t)    ((type_t *)ps_get_block(ps, sizeof(type_t), 1))
 #define ps_get_type2(ps, type_t)    ((type_t *)ps_get_block(ps, sizeof(type_t), 2))
-- 
2.43.0


From 2988b9c1e44f0d98835fa81375ac5c6ecdc389b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 072/154] fix: lstr_transfer_sb hands over a wrong pointer when
 the buffer has skipped bytes

---
 src/core/str-l.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index dc9ae46..d6c3ea8 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -300,10 +300,9 @@ void lstr_transfer_sb(lstr_t *dst, sb_t *sb, bool keep_pool)
     if (keep_pool) {
         mem_pool_t *mp = mp_ipool(sb->mp);
 
-        if ((mp_ipool(mp)->mem_pool & MEM_BY_FRAME)) {
-            if (sb->skip) {
-                memmove(sb->data - sb->skip, sb->data, sb->len + 1);
-            }
+        if (sb->skip) {
+            memmove(sb->data - sb->skip, sb->data, sb->len + 1);
+            sb->data -= sb->skip;
         }
         mp_lstr_copy_(mp, dst, sb->data, sb->len);
         sb_init(sb);
-- 
2.43.0


From ef835c08f53714a03843de551a2cac7a89a80c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 073/154] fix: lstr_dlevenshtein may return more than max_dist

---
 src/core/str-l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index d6c3ea8..1d04585 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -418,7 +418,7 @@ int lstr_dlevenshtein(const lstr_t cs1, const lstr_t cs2, int max_dist)
         THROW_ERR_IF(min_dist > max_dist);
     }
 
-    return cur[s2.len];
+    return cur[s2.len] <= max_dist ? cur[s2.len] : -1;
 }
 
 lstr_t lstr_utf8_truncate(lstr_t s, int char_len)
-- 
2.43.0


From 166a0b9cbdddb3447185688bed02ea056e596178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:46 +0000
Subject: [PATCH 074/154] fix: mp_lstr_dup_utf8_reversed returns an
 unterminated string

---
 src/core/str-l.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index 1d04585..ebb95e1 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -132,11 +132,13 @@ lstr_t mp_lstr_dup_utf8_reversed(mem_pool_t *mp, const lstr_t v)
         int c = utf8_ngetc_at(v.s, v.len, &off);
 
         if (unlikely(c < 0)) {
+            mp_delete(mp, &str);
             return LSTR_NULL_V;
         }
         memcpy(str + v.len - off, v.s + prev_off, off - prev_off);
         prev_off = off;
     }
+    str[v.len] = '\0';
     return mp_lstr_init(mp, str, v.len);
 }
 
-- 
2.43.0


From 0a249fa035e4f5e4837ed4dba190e66be87b9894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:01 +0000
Subject: [PATCH 075/154] fix: lstr_transfer_sb makes the static slop byte of
 an empty buffer freeable

---
 src/core/str-l.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/str-l.c b/src/core/str-l.c
index ebb95e1..b365d17 100644
--- a/src/core/str-l.c
+++ b/src/core/str-l.c
@@ -302,6 +302,10 @@ void lstr_transfer_sb(lstr_t *dst, sb_t *sb, bool keep_pool)
     if (keep_pool) {
         mem_pool_t *mp = mp_ipool(sb->mp);
 
+        if (sb->data == __sb_slop) {
+            /* Nothing was allocated. */
+            mp = &mem_pool_static;
+        }
         if (sb->skip) {
             memmove(sb->data - sb->skip, sb->data, sb->len + 1);
             sb->data -= sb->skip;
-- 
2.43.0


From 1eae21b1a7a137fa43f464c30397944ef065b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:13 +0000
Subject: [PATCH 076/154] fix: wrong case of two letters in the case-sensitive
 collation

---
 src/core/str-conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index c2f9e3f..e38a05c 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -387,11 +387,11 @@ uint32_t const __str_unicode_general_cs[512] = {
     0x01C0,0x01C1,0x01C2,0x01C3,P(D,Z),P(D,z),P(d,z),P(L,J), // 01C0
     P(L,j),P(l,j),P(N,J),P(N,j),P(n,j),   'A',   'a',   'I', // 01C8
        'i',   'O',   'o',   'U',   'u',   'U',   'u',   'U', // 01D0
-       'u',   'U',   'u',   'U',   'u',0x018E,   'A',   'a', // 01D8
+       'u',   'U',   'u',   'U',   'u',0x01DD,   'A',   'a', // 01D8
        'A',   'a',P(A,E),P(a,e),   'G',   'g',   'G',   'g', // 01E0
        'K',   'k',   'O',   'o',   'O',   'o',0x01EE,0x01EF, // 01E8
        'j',P(D,Z),P(D,z),P(d,z),   'G',   'g',0x01F6,0x01F7, // 01F0
-       'N',   'n',   'A',   'a',P(A,E),P(A,e),   'O',   'o', // 01F8
+       'N',   'n',   'A',   'a',P(A,E),P(a,e),   'O',   'o', // 01F8
 };
 #undef p
 #undef a
-- 
2.43.0


From 7d1722f78e641e91b856d2e2831105d9d639c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:13 +0000
Subject: [PATCH 077/154] fix: lstr_utf8_endswith is always true with
 characters beyond U+FFFF

---
 src/core/str-conv.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index e38a05c..163892c 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -835,7 +835,6 @@ int sb_conv_from_ucs2le_hex(sb_t *sb, const void *s, int slen)
 static int sb_normalize_utf8_(sb_t *sb, const char *s, int len,
                               uint32_t const str_conv[], int str_conv_len)
 {
-    sb_t orig = *sb;
     int off = 0;
     char *pos;
     char *end;
@@ -855,19 +854,17 @@ static int sb_normalize_utf8_(sb_t *sb, const char *s, int len,
             }
             c = s[off++];
         }
-        if (c > 0xffff) {
-            return __sb_rewind_adds(sb, &orig);
-        }
 
         if (c < str_conv_len) {
-            conv = str_conv[c];
+            conv  = str_conv[c];
+            hconv = conv >> 16;
+            conv &= 0xffff;
         } else {
-            conv = c;
+            conv  = c;
+            hconv = 0;
         }
-        hconv = conv >> 16;
-        conv &= 0xffff;
 
-        bytes = __utf8_clz_to_charlen[bsr16(conv | 1)];
+        bytes = __utf8_clz_to_charlen[bsr32(conv | 1)];
         if (hconv) {
             bytes += __utf8_clz_to_charlen[bsr16(hconv)];
         }
-- 
2.43.0


From 980dd451df0bc97d25b416f77597c60a47e927d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:13 +0000
Subject: [PATCH 078/154] fix: UCS-2 hexadecimal decoders read past the end of
 a truncated text

---
 src/core/str-conv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-conv.c b/src/core/str-conv.c
index 163892c..c48a51b 100644
--- a/src/core/str-conv.c
+++ b/src/core/str-conv.c
@@ -787,9 +787,9 @@ static int sb_conv_from_ucs2_hex(sb_t *sb, const void *s, int slen, bool is_be)
     char *w, *wend;
     sb_t orig = *sb;
 
-    slen /= 2;
-    if (slen & 1)
+    if (slen & 3)
         return -1;
+    slen /= 2;
 
     w    = sb_grow(sb, slen / 2);
     wend = w + sb_avail(sb);
-- 
2.43.0


From 79aff8013f4be1aec3006e83e459540c476b4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:13 +0000
Subject: [PATCH 079/154] fix: utf8_ngetc reads a byte of an empty string

---
 src/core/str-conv.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/str-conv.h b/src/core/str-conv.h
index fe47085..8fec0a1 100644
--- a/src/core/str-conv.h
+++ b/src/core/str-conv.h
@@ -224,7 +224,10 @@ static ALWAYS_INLINE int utf8_getc(const char * nonnull s,
 static ALWAYS_INLINE int utf8_ngetc(const char * nonnull s, int len,
                                     const char * nullable * nullable out)
 {
-    if (len && (unsigned char)*s < 0x80) {
+    if (unlikely(len <= 0)) {
+        return -1;
+    }
+    if ((unsigned char)*s < 0x80) {
         if (out) {
             *out = s + 1;
         }
-- 
2.43.0


From c48f169285d89bf345fa7957c0b6333779807cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 080/154] fix: HPACK encoder asserts on the eviction of entries
 with a key or value id only

---
 src/net/hpack.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 33b71f9..1b2e350 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -533,7 +533,6 @@ static void hpack_enc_dtbl_evict_last_entry(hpack_enc_dtbl_t *dtbl)
     }
     assert(dtbl->tbl_size >= e.sz);
     dtbl->tbl_size -= e.sz;
-    assert(!e.mre_key || e.mre_val);
     if (e.mre_key) {
         assert(e.key_id);
         qm_del_key(hpack_insertion_idx, &dtbl->ins_idx, e.key_id);
@@ -573,7 +572,7 @@ hpack_enc_dtbl_add_hdr(hpack_enc_dtbl_t *dtbl, lstr_t key, lstr_t val,
         .key_id = key_id,
         .val_id = val_id,
         .mre_key = key_id,
-        .mre_val = val_id,
+        .mre_val = key_id && val_id,
     };
 
     /*XXX: a big-sized entry may evict all entries without being added to the
-- 
2.43.0


From 16270eb7d406fd6b5f14ae94ee55981a247306c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 081/154] fix: HPACK decoder under-estimates a zipped value
 after a raw key

---
 src/net/hpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 1b2e350..2f46320 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -986,7 +986,7 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
         }
         val = __ps_get_ps(in, len);
         /* XXX: huffman encoding maximum compression ratio: 5/8 */
-        vallen = (flags & XHDR_RAW_KEY) ? len : 2u * len;
+        vallen = (flags & XHDR_RAW_VAL) ? len : 2u * len;
     }
     if (add_dtbl) {
         flags |= XHDR_ADD_DTBL;
-- 
2.43.0


From 9216f36681cc087c08a81252803286a172d46b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 082/154] fix: HPACK decoder reads past the end of a truncated
 header

---
 src/net/hpack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 2f46320..7338e5f 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -953,6 +953,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     if (!idx) {
         /* New Name (key) */
         flags |= XHDR_NEW_KEY;
+        if (ps_done(in)) {
+            return LOGE("missing key");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_KEY : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the key length");
@@ -977,6 +980,9 @@ int hpack_decoder_extract_hdr(hpack_dec_dtbl_t *dtbl, pstream_t *in,
     }
     if (new_val) {
         flags |= XHDR_NEW_VAL;
+        if (ps_done(in)) {
+            return LOGE("missing value");
+        }
         flags = in->b[0] < 0x80 ? flags | XHDR_RAW_VAL : flags;
         if (hpack_decode_int(in, 7, &len)) {
             return LOGE("unable to decode the value length");
-- 
2.43.0


From 725891c071bd983f43c64be7e58af44039e3b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 083/154] fix: HPACK decoder table entries refer to the freed
 key of an evicted one

---
 src/net/hpack.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/net/hpack.c b/src/net/hpack.c
index 7338e5f..fb4bba5 100644
--- a/src/net/hpack.c
+++ b/src/net/hpack.c
@@ -1068,12 +1068,10 @@ int hpack_decoder_write_hdr(hpack_dec_dtbl_t *dtbl, hpack_xhdr_t *xhdr,
     *out++ = '\n';
     if (xhdr->flags & XHDR_ADD_DTBL) {
         assert(xhdr->flags & XHDR_NEW_VAL);
-        if (xhdr->flags & XHDR_NEW_KEY) {
+        if ((xhdr->flags & XHDR_NEW_KEY) || ent) {
+            /* XXX: several entries may be created from the same one, so
+             * each entry owns its key. */
             key = lstr_dup(key);
-        } else if (ent) {
-            /* new entry in the dyn. table with the same key, old entry loses
-             * ownership of the string buffer. */
-            ent->key = lstr_dupc(key);
         }
         val = lstr_dup(val);
         hpack_dec_dtbl_add_hdr(dtbl, key, val);
-- 
2.43.0


From c0fc89eafcda7e1d13bd8088743f604e6f4d8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 084/154] fix: an escaped question mark is part of the path of
 a HTTP request

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index f062be5..23a051b 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -316,7 +316,7 @@ static int t_urldecode(httpd_qinfo_t *rq, pstream_t ps)
         } else
         if (c == '%') {
             c = RETHROW(ps_hexdecode(&ps));
-        }
+        } else
         if (c == '?') {
             *p++ = '\0';
             rq->vars = ps;
-- 
2.43.0


From 0e56648491f59c20f9ab5d6260227ba8b599cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 085/154] fix: the HTTP server never answers to Expect:
 100-continue

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 23a051b..3f9e3b3 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1336,7 +1336,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
             break;
 
           case HTTP_WKHDR_EXPECT:
-            q->expect100cont |= http_hdr_equals(qhdr->key, "100-continue");
+            q->expect100cont |= http_hdr_equals(qhdr->val, "100-continue");
             break;
 
           case HTTP_WKHDR_CONNECTION:
-- 
2.43.0


From 6d16405d1f170e32aeba08d1395972948a06b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 086/154] fix: a query with an unknown Transfer-Encoding was
 handled after its reject

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 3f9e3b3..ceb0d55 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1356,7 +1356,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
                 httpd_reject(q, NOT_IMPLEMENTED,
                              "Transfer-Encoding %*pM is unimplemented",
                              (int)ps_len(&qhdr->val), qhdr->val.s);
-                break;
+                goto unrecoverable_error;
             }
             break;
 
-- 
2.43.0


From d8d63d27aecb307dc47965e2fdbdfd91393326f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 087/154] fix: HTTP messages with a negative or too large
 Content-Length were accepted

---
 src/net/http.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index ceb0d55..9f9d930 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1234,6 +1234,7 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
     const uint8_t *p;
     pstream_t buf;
     int clen = -1;
+    int64_t len;
     bool chunked = false;
     httpd_query_t *q;
     qv_t(qhdr) hdrs;
@@ -1361,11 +1362,12 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
             break;
 
           case HTTP_WKHDR_CONTENT_LENGTH:
-            clen = memtoip(qhdr->val.b, ps_len(&qhdr->val), &p);
-            if (p != qhdr->val.b_end) {
+            len = memtollp(qhdr->val.b, ps_len(&qhdr->val), &p);
+            if (p != qhdr->val.b_end || len < 0 || len > INT_MAX) {
                 httpd_reject(q, BAD_REQUEST, "Content-Length is unparseable");
                 goto unrecoverable_error;
             }
+            clen = len;
             break;
 
           case HTTP_WKHDR_CONTENT_ENCODING:
@@ -2376,6 +2378,7 @@ static int httpc_parse_idle(httpc_t *w, pstream_t *ps)
     httpc_query_t *q;
     bool chunked = false, conn_close = false;
     int clen = -1, res;
+    int64_t len;
 
     if (ps_len(ps) > 0 && dlist_is_empty(&w->query_list)) {
         logger_trace(&_G.logger, 0, "UHOH spurious data from the HTTP "
@@ -2448,10 +2451,11 @@ static int httpc_parse_idle(httpc_t *w, pstream_t *ps)
             break;
 
           case HTTP_WKHDR_CONTENT_LENGTH:
-            clen = memtoip(qhdr->val.b, ps_len(&qhdr->val), &p);
-            if (p != qhdr->val.b_end) {
+            len = memtollp(qhdr->val.b, ps_len(&qhdr->val), &p);
+            if (p != qhdr->val.b_end || len < 0 || len > INT_MAX) {
                 return PARSE_ERROR;
             }
+            clen = len;
             break;
 
           case HTTP_WKHDR_CONTENT_ENCODING:
-- 
2.43.0


From aedc82a745c3be6360271d55265ff90f0b22255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 088/154] fix: the size of a huge HTTP chunk was truncated

---
 src/net/http.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 9f9d930..e746ce2 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1520,6 +1520,9 @@ static int httpd_parse_chunk_hdr(httpd_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        goto cancel_query;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
@@ -2615,6 +2618,9 @@ static int httpc_parse_chunk_hdr(httpc_t *w, pstream_t *ps)
     }
     for (const char *s = hex.s; s < hex.s_end; s++)
         len = (len << 4) | __str_digit_value[*s + 128];
+    if (unlikely(len > INT_MAX - 2)) {
+        return PARSE_ERROR;
+    }
     w->chunk_length = len;
     w->state = len ? HTTP_PARSER_CHUNK : HTTP_PARSER_CHUNK_TRAILER;
     q->received_body_length += ps->s - orig;
-- 
2.43.0


From 93f0565ec72f8a765f1ccf6c8549557bf0fc4f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 089/154] fix: the CR that ends a HTTP chunk was taken as data
 when the LF comes later

---
 src/net/http.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index e746ce2..3e3592b 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1554,8 +1554,13 @@ static int httpd_parse_chunk(httpd_t *w, pstream_t *ps)
         w->state = HTTP_PARSER_CHUNK_HDR;
         return PARSE_OK;
     }
-    if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpd_flush_data(w, q, ps, false));
+    if (plen > w->chunk_length) {
+        plen = w->chunk_length;
+    }
+    if (plen && plen >= w->cfg->on_data_threshold) {
+        pstream_t tmp = __ps_get_ps(ps, plen);
+
+        RETHROW(httpd_flush_data(w, q, &tmp, false));
     }
     return PARSE_MISSING_DATA;
 }
@@ -2643,8 +2648,13 @@ static int httpc_parse_chunk(httpc_t *w, pstream_t *ps)
         w->state = HTTP_PARSER_CHUNK_HDR;
         return PARSE_OK;
     }
-    if (plen >= w->cfg->on_data_threshold) {
-        RETHROW(httpc_flush_data(w, q, ps, false));
+    if (plen > w->chunk_length) {
+        plen = w->chunk_length;
+    }
+    if (plen && plen >= w->cfg->on_data_threshold) {
+        pstream_t tmp = __ps_get_ps(ps, plen);
+
+        RETHROW(httpc_flush_data(w, q, &tmp, false));
     }
     return PARSE_MISSING_DATA;
 }
-- 
2.43.0


From 99ff520c227d261ab7942df6698a9e4eb553e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 090/154] fix: data lost when a compressed HTTP body has a high
 ratio

---
 src/net/http.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/net/http.c b/src/net/http.c
index 3e3592b..6907e25 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -185,19 +185,14 @@ static int http_zlib_inflate(z_stream *s, int *clen,
             return rc;
         }
 
-        if (rc == Z_STREAM_END && ps_len(in)) {
-            return Z_STREAM_ERROR;
+        if (rc == Z_STREAM_END) {
+            return ps_len(in) ? Z_STREAM_ERROR : 0;
         }
-        if (rc == Z_BUF_ERROR) {
-            if (s->avail_in) {
-                continue;
-            }
-            if (flush) {
-                return Z_STREAM_ERROR;
-            }
-            return 0;
+        if (s->avail_in || !s->avail_out) {
+            /* the output buffer is too small */
+            continue;
         }
-        return 0;
+        return flush ? Z_STREAM_ERROR : 0;
     }
 }
 
-- 
2.43.0


From fd5d4086ac15547c3c09e99a1b93fd1a0a830ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 091/154] fix: crash of the HTTP server on empty lines before
 the request line

---
 src/net/http.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/net/http.c b/src/net/http.c
index 6907e25..d5f520b 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1236,6 +1236,11 @@ static int httpd_parse_idle(httpd_t *w, pstream_t *ps)
     httpd_trigger_t *cb = NULL;
     struct timeval now;
 
+    /* rfc 2616: §4.1: ignore the empty lines before the request line */
+    while (ps_skipstr(ps, "\r\n") == 0) {
+        start = w->chunk_length = 0;
+    }
+
     if ((p = memmem(ps->s + start, ps_len(ps) - start, "\r\n\r\n", 4)) == NULL) {
         if (ps_len(ps) > w->cfg->header_size_max) {
             q = httpd_query_create(w, NULL);
-- 
2.43.0


From 15638506ada0cdba246815e7af03e0071ab78d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 092/154] fix: HTTP client reads past a status line without a
 code

---
 src/net/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index d5f520b..15793fa 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -410,7 +410,7 @@ http_parse_status_line(pstream_t *ps, unsigned max_len, httpc_qinfo_t *qi)
         return PARSE_ERROR;
     }
     qi->http_version |= RETHROW(ps_get_ver(&line));
-    __ps_skip(&line, 1);
+    PS_CHECK(ps_skip(&line, 1));
 
     if (ps_get_ps_chr(&line, ' ', &code) || ps_len(&code) != 3) {
         return PARSE_ERROR;
-- 
2.43.0


From 6e63778fa98e4faa0e28ee45f11b4a811406e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:16 +0000
Subject: [PATCH 093/154] fix: HTTP connection never closed when the last
 answer is already written

---
 src/net/http.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/net/http.c b/src/net/http.c
index 15793fa..83a15ec 100644
--- a/src/net/http.c
+++ b/src/net/http.c
@@ -1145,7 +1145,10 @@ static void httpd_set_mask(httpd_t *w)
         mask = POLLIN;
     }
 
-    if (!ob_is_empty(&w->ob)) {
+    if (!ob_is_empty(&w->ob)
+    ||  (w->state == HTTP_PARSER_CLOSE && w->queries == 0))
+    {
+        /* in the latter case, wake up in order to close the connection */
         mask |= POLLOUT;
     }
 
-- 
2.43.0


From 18a8fa92a6517e0a1e623a1063b5a7a496a0ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:38 +0000
Subject: [PATCH 094/154] fix: t_file_bin_get_last_records returns records
 twice

---
 src/core/file-bin.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 63ff8fd..f4ac086 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -256,7 +256,8 @@ static int _file_bin_skip(file_bin_t *file, off_t toskip)
     return 0;
 }
 
-static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
+static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
+                                     off_t *rec_off)
 {
     off_t prev_off = file->cur;
     off_t rec_end_off;
@@ -294,6 +295,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     if (file_bin_is_finished(file)) {
         return -1;
     }
+    *rec_off = file->cur;
     if (file_bin_get_cpu32(file, &sz) < 0) {
         goto error;
     }
@@ -415,20 +417,27 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec)
     return 0;
 }
 
-lstr_t file_bin_get_next_record(file_bin_t *file)
+static lstr_t file_bin_get_next_record_off(file_bin_t *file, off_t *rec_off)
 {
     int res;
     lstr_t rec = LSTR_NULL_V;
 
-    assert (file->read_mode);
-
     do {
-        res = _file_bin_get_next_record(file, &rec);
+        res = _file_bin_get_next_record(file, &rec, rec_off);
     } while (res >= 0 && !rec.s);
 
     return rec;
 }
 
+lstr_t file_bin_get_next_record(file_bin_t *file)
+{
+    off_t rec_off;
+
+    assert (file->read_mode);
+
+    return file_bin_get_next_record_off(file, &rec_off);
+}
+
 int t_file_bin_get_last_records(file_bin_t *file, int count, qv_t(lstr) *out)
 {
     off_t save_cur = file->cur;
@@ -447,9 +456,11 @@ int t_file_bin_get_last_records(file_bin_t *file, int count, qv_t(lstr) *out)
         while (file->cur <= prev_slot - RC_HDR_SIZE
             && !file_bin_is_finished(file))
         {
-            lstr_t res = file_bin_get_next_record(file);
+            off_t rec_off = 0;
+            lstr_t res = file_bin_get_next_record_off(file, &rec_off);
 
-            if (!res.s) {
+            if (!res.s || rec_off >= prev_slot) {
+                /* no more records, or none that starts in this slot */
                 break;
             }
             qv_append(&tmp, t_lstr_dup(res));
-- 
2.43.0


From 814193a5f04dec35d2f323fe0aac1765c6fc52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:38 +0000
Subject: [PATCH 095/154] fix: file_write counts the bytes that were already in
 the buffer

---
 src/core/file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/file.c b/src/core/file.c
index 1e73d43..e748139 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -206,7 +206,8 @@ static ssize_t __file_writev(file_t *f, struct iovec *iov, size_t iovcnt)
     for (size_t i = 0; i < iovcnt; i++) {
         len += iov[i].iov_len;
     }
-    res = len;
+    /* what was already in the buffer does not count */
+    res = len - f->obuf.len;
 
     while (len >= BUFSIZ) {
         ssize_t resv = writev(f->fd, iov, iovcnt);
-- 
2.43.0


From bd410e867e7f731199f600302b154e5edd9ac169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 096/154] fix: last empty record of a binary file not read at
 the end of a slot

---
 src/core/file-bin.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index f4ac086..76ccfc1 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -300,6 +300,11 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
         goto error;
     }
 
+    if (sz == 0 && file->version > 0) {
+        *rec = LSTR_EMPTY_V;
+        return 0;
+    }
+
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
         slot_hdr_t tmp_size;
@@ -337,14 +342,9 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
     }
 
     if (sz == 0) {
-        if (file->version == 0) {
-            /* In V0, the end of the slots are filled with 0s. Go to error so
-             * that we jump to next slot. */
-            goto error;
-        } else {
-            *rec = LSTR_EMPTY_V;
-            return 0;
-        }
+        /* In V0, the end of the slots are filled with 0s. Go to error so
+         * that we jump to next slot. */
+        goto error;
     }
 
     check_slot_hdr = file_bin_get_next_entry_off(file, sz);
-- 
2.43.0


From d808da6a880aaa2f67557d2de8b4fba1004f6e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 097/154] fix: file_truncate damages the data after the
 position

---
 src/core/file.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/file.c b/src/core/file.c
index e748139..c2b5833 100644
--- a/src/core/file.c
+++ b/src/core/file.c
@@ -331,7 +331,16 @@ int write_in_tmp_file(char *file_path, const char *data, int len, sb_t *err)
 
 int file_truncate(file_t *f, off_t len)
 {
-    if (len < f->wpos) {
+    struct stat st;
+
+    RETHROW(fstat(f->fd, &st));
+    if (st.st_size != f->wpos) {
+        /* The buffer is not at the end of the file */
+        RETHROW(file_flush(f));
+        RETHROW(ftruncate(f->fd, len));
+        RETHROW(lseek(f->fd, len, SEEK_SET));
+        f->wpos = len;
+    } else if (len < f->wpos) {
         RETHROW(ftruncate(f->fd, len));
         RETHROW(lseek(f->fd, len, SEEK_SET));
         f->wpos = len;
-- 
2.43.0


From 72a929a7700b2eb7e14007722054674260ce15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 098/154] fix: record being written taken as corrupted by the
 readers of a binary file

---
 src/core/file-bin.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 76ccfc1..837d9e4 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -307,6 +307,7 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
 
     rec_end_off = file_bin_get_entry_end_off(file, sz);
     if (rec_end_off > file->length) {
+        off_t next_off = file_bin_get_next_entry_off(file, sz);
         slot_hdr_t tmp_size;
 
         /* There is not enough data in the file to read the record. This could
@@ -318,12 +319,12 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
          *
          * In order to guess in which case we are, read the next slot header
          * (if available) in which there is also the information about the
-         * offset of the end of the record. If the two offsets mismatch, we
+         * offset of the next record. If the two offsets mismatch, we
          * are in the first case.
          */
         if (_file_bin_skip(file, file_bin_remaining_space_in_slot(file)) < 0
         ||  file_bin_get_cpu32(file, &tmp_size) < 0
-        ||  rec_end_off == file->cur + tmp_size)
+        ||  next_off == file->cur + tmp_size)
         {
             file->cur = prev_off;
             return -1;
-- 
2.43.0


From c2ed1e97a33004bc0ac38faa1bac7dae84d754ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:33 +0000
Subject: [PATCH 099/154] fix: slot skipped in binary files of version 0 after
 four bytes of padding

---
 src/core/file-bin.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index 837d9e4..b89099d 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -344,7 +344,11 @@ static int _file_bin_get_next_record(file_bin_t *file, lstr_t *rec,
 
     if (sz == 0) {
         /* In V0, the end of the slots are filled with 0s. Go to error so
-         * that we jump to next slot. */
+         * that we jump to next slot, unless we are already there. */
+        if (is_at_slot_start(file)) {
+            *rec = LSTR_NULL_V;
+            return 0;
+        }
         goto error;
     }
 
-- 
2.43.0


From 52d6dddcd487fee00d2f7269dd2853cf097bc732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:53 +0000
Subject: [PATCH 100/154] fix: overflow on a corrupted record length in binary
 files

---
 src/core/file-bin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/file-bin.c b/src/core/file-bin.c
index b89099d..0f9759d 100644
--- a/src/core/file-bin.c
+++ b/src/core/file-bin.c
@@ -96,9 +96,9 @@ static off_t file_bin_tell(const file_bin_t *file)
 
 static off_t file_bin_get_entry_end_off(const file_bin_t *f, uint32_t d_len)
 {
-    uint32_t len = d_len;
+    uint64_t len = d_len;
     off_t res;
-    uint32_t nb_slots;
+    uint64_t nb_slots;
     uint32_t remaining = file_bin_remaining_space_in_slot(f);
 
     if (is_at_slot_start(f)) {
-- 
2.43.0


From ba48882e3198b1a4a12c6a73b711473785d65709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 101/154] fix: iop_first_diff reports unions with different
 selections as equal

---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index bcccda4..b3cc6e5 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -1785,7 +1785,7 @@ static int __iop_first_diff(const iop_struct_t *st,
         if (tag_v1 != tag_v2) {
             sb_setf(diff_desc, "union field differs (`%*pU` vs `%*pU`)",
                     (uint16_t)tag_v1, st, (uint16_t)tag_v2, st);
-            return -1;
+            return 0;
         }
 
         fdesc = get_union_field(st, v1);
-- 
2.43.0


From b96fe119f28afbe50587e3e276398790754307ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 102/154] fix: iop_first_diff and iop_equals disagree on NaN
 and on signed zeros

---
 src/iop/helpers.in.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iop/helpers.in.c b/src/iop/helpers.in.c
index b89fc86..2bc0082 100644
--- a/src/iop/helpers.in.c
+++ b/src/iop/helpers.in.c
@@ -81,7 +81,8 @@ static inline bool iop_value_equals(iop_type_t type, const void *v1,
         return *(const int64_t *)v1 == *(const int64_t *)v2;
 
       case IOP_T_DOUBLE:
-        return *(const double *)v1 == *(const double *)v2;
+        /* XXX compared bit to bit, as in iop_equals */
+        return *(const uint64_t *)v1 == *(const uint64_t *)v2;
 
       case IOP_T_STRING:
       case IOP_T_DATA:
-- 
2.43.0


From 00d5281fb2eee48ac273bc6b4974e485a19d01d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 103/154] fix: IOP field paths and filters misread the tag of
 tiny unions

---
 src/iop/iop.blk | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index b3cc6e5..1c2d507 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -198,7 +198,7 @@ iop_get_field_const(const void *ptr, const iop_struct_t *st, lstr_t path,
         RETHROW_NP(iop_field_find_by_name(st,
                                           LSTR_PS_V(&field_parse.field_name),
                                           out_st, &iop_field));
-        if (st->is_union && *(int16_t *)ptr != iop_field->tag) {
+        if (st->is_union && iop_union_get_tag(st, ptr) != iop_field->tag) {
             return NULL;
         }
         ptr = (const byte *)ptr + iop_field->data_offs;
@@ -2095,10 +2095,13 @@ typedef struct field_step_t {
          * current position and the next field to read. */
         uint16_t offset;
 
-        /* For step type FIELD_STEP_TYPE_UNION_FIELD. Expected union tag for
-         * current union. If another field is selected, then the field is
-         * considered as missing. */
-        uint16_t union_tag;
+        /* For step type FIELD_STEP_TYPE_UNION_FIELD. Description of the
+         * union, and expected union tag for current union. If another field
+         * is selected, then the field is considered as missing. */
+        struct {
+            const iop_struct_t *union_st;
+            uint16_t union_tag;
+        };
 
         /* For step type FIELD_STEP_TYPE_GOTO_INDEX, index of the field in the
          * array. */
@@ -2185,19 +2188,21 @@ field_step_run(const field_step_t *step, const void **data,
         }
         break;
 
-    case FIELD_STEP_TYPE_UNION_FIELD:
+    case FIELD_STEP_TYPE_UNION_FIELD: {
+        int tag = iop_union_get_tag(step->u.union_st, *data);
+
         /* Check if the selected member of the union is the one we want
          * (the one specified in field_path), and if not this object is
          * considered as NULL in the sort/filter. */
-        if (*(const uint16_t *)*data != step->u.union_tag) {
+        if (tag != step->u.union_tag) {
             if (err) {
-                sb_setf(err, "invalid union tag, expected %u, got %u",
-                        step->u.union_tag, *(const uint16_t *)*data);
+                sb_setf(err, "invalid union tag, expected %u, got %d",
+                        step->u.union_tag, tag);
 
             }
             return IOP_FIELD_NOT_SET;
         }
-        break;
+      } break;
 
     case FIELD_STEP_TYPE_GOTO_INDEX: {
         const i8__array_t *array = *data;
@@ -2437,6 +2442,7 @@ iop_compile_field_path(const iop_struct_t *st, lstr_t field_path_s,
         if (it->is_union) {
             step = field_step_init(qv_growlen(&fp->steps, 1));
             step->type = FIELD_STEP_TYPE_UNION_FIELD;
+            step->u.union_st = it;
             step->u.union_tag = fdesc->tag;
         }
         if (fdesc->repeat == IOP_R_REPEATED &&
@@ -2990,6 +2996,8 @@ void iop_xpsort_desc(const iop_struct_t *st, const void **vec, int len)
 /* }}} */
 /* {{{ Filtering values */
 
+static int iop_union_get_data_offset(const iop_struct_t *nonnull desc);
+
 static bool iop_filter_is_value_in_array(const void *val,
                                          void * const * values, int len,
                                          cmp_f equal)
@@ -3108,6 +3116,12 @@ __t_iop_filter(const iop_struct_t *st, const void *vec, int len,
         } else {
             equal = iop_get_cmp_fun(type);
         }
+        if (type == IOP_T_UNION
+        &&  iop_union_get_data_offset(fp.fdesc->u1.st_desc) == 1)
+        {
+            /* The tag of the tiny unions is stored in a single byte. */
+            equal = &cmp_u8;
+        }
     }
 
     if (!*bitmap) {
-- 
2.43.0


From 0806da5687392aa980179ab68925e57b9cbb5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:56 +0000
Subject: [PATCH 104/154] fix: IOP field path targeting an array of objects
 inside an array

---
 src/iop/iop.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 1c2d507..988bdb2 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -2350,7 +2350,6 @@ iop_compile_field_path(const iop_struct_t *st, lstr_t field_path_s,
     pstream_t field_path_ps = ps_initlstr(&field_path_s);
     const iop_struct_t *it = st;
     field_step_t *step;
-    bool step_is_array_element = false;
     int step_offset = 0;
 
     /* Don't use the same field path twice. */
@@ -2366,6 +2365,7 @@ iop_compile_field_path(const iop_struct_t *st, lstr_t field_path_s,
     step = NULL;
     while (!ps_done(&field_path_ps)) {
         iop_field_path_parse_t field_parse;
+        bool step_is_array_element = false;
 
         RETHROW(parse_field_from_path(&field_path_ps, it, &field_parse,
                                       err));
-- 
2.43.0


From 0bc0808d18c0df63d6bf94392038043de6ce6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:29 +0000
Subject: [PATCH 105/154] fix: IOP walks return IOP_FIELD_SKIP when the field
 of a union is skipped

---
 src/iop/for-each.in.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iop/for-each.in.c b/src/iop/for-each.in.c
index 81ddbb8..8b5651c 100644
--- a/src/iop/for-each.in.c
+++ b/src/iop/for-each.in.c
@@ -169,6 +169,9 @@ static int F(on_field)(const iop_struct_t *st_desc, const iop_field_t *fdesc,
     res = F(for_each_field)(fdesc->u1.st_desc, fptr, is_ptr __F_ARGS);
 
   end:
+    if (res == IOP_FIELD_SKIP) {
+        res = 0;
+    }
 #ifdef ON_FIELD_DONE
     ON_FIELD_DONE();
 #endif
-- 
2.43.0


From ea1652ebe0f102647cea61c1060b239e5d2d6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:57 +0000
Subject: [PATCH 106/154] fix: constraints of optional unions not checked when
 unpacking YAML

---
 src/iop/yaml.blk | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/iop/yaml.blk b/src/iop/yaml.blk
index a1513bb..7ef37c7 100644
--- a/src/iop/yaml.blk
+++ b/src/iop/yaml.blk
@@ -376,6 +376,14 @@ check_constraints(const iop_struct_t * nonnull desc,
         return iop_field_check_constraints(desc, fdesc, arr->tab, arr->len,
                                            false);
     } else {
+        if (fdesc->repeat == IOP_R_OPTIONAL) {
+            if (!iop_opt_field_isset(fdesc->type, value)) {
+                return 0;
+            }
+            if (!iop_type_is_scalar(fdesc->type)) {
+                value = *(void **)value;
+            }
+        }
         return iop_field_check_constraints(desc, fdesc, value, 1, false);
     }
 }
-- 
2.43.0


From 13a5af0291c94a47ea4e96f353e4d2c05dbf928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:57 +0000
Subject: [PATCH 107/154] fix: constraints of references to unions read the tag
 in the pointer

---
 src/iop/iop.blk      |  9 ++++++++-
 src/iop/xml-unpack.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/iop/iop.blk b/src/iop/iop.blk
index 988bdb2..998fb9a 100644
--- a/src/iop/iop.blk
+++ b/src/iop/iop.blk
@@ -3362,7 +3362,14 @@ int iop_field_check_constraints(const iop_struct_t *desc, const iop_field_t
     check_constraints_f *check_constraints = NULL;
 
     if ((check_constraints = iop_field_get_constraints_cb(desc, fdesc))) {
-        if (unlikely(check_constraints(ptr, n) < 0)) {
+        const void *values = ptr;
+
+        if (iop_field_is_reference(fdesc) && fdesc->repeat != IOP_R_OPTIONAL)
+        {
+            /* The callback expects the referenced value. */
+            values = *(void **)ptr;
+        }
+        if (unlikely(check_constraints(values, n) < 0)) {
             iop_err_g.desc = desc;
             sb_reset(&iop_err_g.path);
             return -1;
diff --git a/src/iop/xml-unpack.c b/src/iop/xml-unpack.c
index 9f1b62d..1097f9f 100644
--- a/src/iop/xml-unpack.c
+++ b/src/iop/xml-unpack.c
@@ -479,7 +479,10 @@ __xunpack_struct(xml_reader_t xr, mem_pool_t *mp, void *value, int flags,
             goto next;
         } else
         if (iop_field_is_reference(fdesc->fdesc)) {
-            v = iop_field_ptr_alloc(mp, fdesc->fdesc, v);
+            RETHROW(xunpack_value(xr, mp, fdesc->fdesc,
+                                  iop_field_ptr_alloc(mp, fdesc->fdesc, v),
+                                  flags));
+            goto next;
         } else
         if (fdesc->fdesc->repeat == IOP_R_OPTIONAL
         &&  !iop_field_is_class(fdesc->fdesc))
@@ -635,6 +638,7 @@ xunpack_union(xml_reader_t xr, mem_pool_t *mp, const iop_struct_t *desc,
               void *value, int flags)
 {
     const iop_field_t *fdesc;
+    void *ptr;
     lstr_t name;
 
     RETHROW(xmlr_next_child(xr));
@@ -647,12 +651,13 @@ xunpack_union(xml_reader_t xr, mem_pool_t *mp, const iop_struct_t *desc,
     iop_union_set_tag(desc, fdesc->tag, value);
     value = (char *)value + fdesc->data_offs;
 
+    ptr = value;
     if (iop_field_is_reference(fdesc)) {
         /* reference fields must be dereferenced */
-        value = iop_field_ptr_alloc(mp, fdesc, value);
+        ptr = iop_field_ptr_alloc(mp, fdesc, value);
     }
 
-    RETHROW(xunpack_value(xr, mp, fdesc, value, flags));
+    RETHROW(xunpack_value(xr, mp, fdesc, ptr, flags));
     if (unlikely(iop_field_has_constraints(desc, fdesc))) {
         if (iop_field_check_constraints(desc, fdesc, value, 1, false) < 0) {
             return xmlr_fail(xr, "%*pM", LSTR_FMT_ARG(iop_get_err_lstr()));
-- 
2.43.0


From 286acdc97d9a80ceae111ca8bf666161f98035e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 108/154] fix: datetime: keep the sign of offsets between
 -01:00 and 00:00

---
 src/datetime.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/datetime.h b/src/datetime.h
index e50282a..fc4b53c 100644
--- a/src/datetime.h
+++ b/src/datetime.h
@@ -340,14 +340,16 @@ lstr_t t_get_time_split_lstr_fr(uint64_t seconds)
     ISO8601_BASE_MSEC_FMT_ARG(tm, msec)
 
 #define ISO8601_TZ_FMT                                                       \
-    ISO8601_BASE_FMT "%+03d:%02d"
+    ISO8601_BASE_FMT "%c%02d:%02d"
 #define ISO8601_TZ_FMT_ARG(tm, delta_h, delta_m)                             \
-    ISO8601_BASE_FMT_ARG(tm), (delta_h), (delta_m)
+    ISO8601_BASE_FMT_ARG(tm), (tm)->tm_gmtoff < 0 ? '-' : '+',               \
+    abs(delta_h), (delta_m)
 
 #define ISO8601_TZ_MSEC_FMT                                                  \
-    ISO8601_BASE_MSEC_FMT "%+03d:%02d"
+    ISO8601_BASE_MSEC_FMT "%c%02d:%02d"
 #define ISO8601_TZ_MSEC_FMT_ARG(tm, msec, delta_h, delta_m)                  \
-    ISO8601_BASE_MSEC_FMT_ARG(tm, msec), (delta_h), (delta_m)
+    ISO8601_BASE_MSEC_FMT_ARG(tm, msec), (tm)->tm_gmtoff < 0 ? '-' : '+',    \
+    abs(delta_h), (delta_m)
 
 static inline void
 time_get_gmt_delta(const struct tm *tm, int *delta_h, int *delta_m)
-- 
2.43.0


From c96a45251509de1411417edcbda67d59d876fb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 109/154] fix: timeval_addmsec: normalize the result for
 negative amounts

---
 src/datetime.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime.h b/src/datetime.h
index fc4b53c..86eeda3 100644
--- a/src/datetime.h
+++ b/src/datetime.h
@@ -585,6 +585,10 @@ static inline struct timeval timeval_addmsec(struct timeval a, int64_t msec)
     if (res.tv_usec >= 1000 * 1000) {
         res.tv_sec += 1;
         res.tv_usec -= 1000 * 1000;
+    } else
+    if (res.tv_usec < 0) {
+        res.tv_sec -= 1;
+        res.tv_usec += 1000 * 1000;
     }
     return res;
 }
-- 
2.43.0


From 744d321a2b3a9e6797b350d5c89cd2f6b09c4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 110/154] fix: time_parse: do not read after a time zone made
 of a sign only

---
 src/core/datetime-iso8601.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/datetime-iso8601.c b/src/core/datetime-iso8601.c
index 2e23380..1b2c1da 100644
--- a/src/core/datetime-iso8601.c
+++ b/src/core/datetime-iso8601.c
@@ -69,7 +69,7 @@ static int time_parse_timezone(pstream_t *ps, int *tz_h, int *tz_m)
         PS_WANT(sgn == '+' || sgn == '-');
 
         errno = 0;
-        PS_WANT(isdigit(ps->b[0]));
+        PS_WANT(ps_has(ps, 1) && isdigit(ps->b[0]));
         if (ps_len(ps) == 5) {
             *tz_h = ps_geti(ps);
             PS_WANT(errno == 0 && ps_len(ps) == 3);
-- 
2.43.0


From 6b93a42b4a5a5d30feb2b2a2e15015dc9c402e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 111/154] fix: time_parse: accept UTC as a time zone, as
 documented

---
 src/core/datetime-iso8601.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/datetime-iso8601.c b/src/core/datetime-iso8601.c
index 1b2c1da..9f9c3af 100644
--- a/src/core/datetime-iso8601.c
+++ b/src/core/datetime-iso8601.c
@@ -24,7 +24,7 @@ static int time_parse_timezone(pstream_t *ps, int *tz_h, int *tz_m)
     *tz_h = 0;
 
     if (ps_strcaseequal(ps, "ut") || ps_strcaseequal(ps, "gmt")
-    ||  ps_strcaseequal(ps, "z"))
+    ||  ps_strcaseequal(ps, "utc") || ps_strcaseequal(ps, "z"))
     {
         return 0;
     } else
-- 
2.43.0


From a26235e5126c43b1195146f810fada386a752418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 112/154] fix: format_timestamp: do not use the name of the
 locale after free

---
 src/core/datetime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/datetime.c b/src/core/datetime.c
index c44850d..f02a09c 100644
--- a/src/core/datetime.c
+++ b/src/core/datetime.c
@@ -600,6 +600,7 @@ int time_diff_days(time_t from, time_t to)
 int format_timestamp(const char *fmt, time_t ts, const char *locale,
                      char out[], int out_size)
 {
+    t_scope;
     struct tm ts_tm;
     const char *lc_time = NULL;
     int len;
@@ -610,7 +611,8 @@ int format_timestamp(const char *fmt, time_t ts, const char *locale,
         return len;
     }
     if (locale) {
-        lc_time = setlocale(LC_TIME, NULL);
+        /* XXX: the returned name is released by the next setlocale(). */
+        lc_time = t_strdup(setlocale(LC_TIME, NULL));
         RETHROW_PN(setlocale(LC_TIME, locale));
     }
 
-- 
2.43.0


From 7d193143d17226123dabe6e8ddec9faac0159682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:37 +0000
Subject: [PATCH 113/154] fix: format_timestamp: report truncated timestamps

---
 src/core/datetime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/datetime.c b/src/core/datetime.c
index f02a09c..ebbc119 100644
--- a/src/core/datetime.c
+++ b/src/core/datetime.c
@@ -608,7 +608,7 @@ int format_timestamp(const char *fmt, time_t ts, const char *locale,
 
     if (strequal(fmt, "%s")) {
         len = snprintf(out, out_size, "%ld", ts);
-        return len;
+        return len < out_size ? len : -1;
     }
     if (locale) {
         /* XXX: the returned name is released by the next setlocale(). */
-- 
2.43.0


From 5be35c9e44717bd882fd2f36f6dca1525a5e068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 114/154] fix: path_simplify: the root directory is not the
 current one

---
 src/core/str-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index 2da91d6..70f37bc 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -183,9 +183,9 @@ int path_simplify2(char *in, bool keep_trailing_slash)
         *out++ = '/';
     }
 
-    start -= absolute;
     if (!keep_trailing_slash && out > start && out[-1] == '/')
         --out;
+    start -= absolute;
     if (out == start)
         *out++ = '.';
     *out = '\0';
-- 
2.43.0


From 870b6d8851eea58814c7334707947b79c5176cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:06 +0000
Subject: [PATCH 115/154] fix: path_simplify: simplify a trailing '/.' too

---
 src/core/str-path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index 70f37bc..baf5fcf 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -152,8 +152,8 @@ int path_simplify2(char *in, bool keep_trailing_slash)
         while (*in == '/')
             in++;
         if (*in == '.') {
-            if (in[1] == '/') {
-                in += 2;
+            if (in[1] == '/' || !in[1]) {
+                in++;
                 continue;
             }
             if (in[1] == '.' && (!in[2] || in[2] == '/')) {
-- 
2.43.0


From 6b2ff1a4a2da06a0c13d7fce2f4f5ccf578bc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:38 +0000
Subject: [PATCH 116/154] fix: path_extend: expand '~/' only and report
 overflows, as documented

---
 src/core/str-path.c | 47 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/core/str-path.c b/src/core/str-path.c
index baf5fcf..433311e 100644
--- a/src/core/str-path.c
+++ b/src/core/str-path.c
@@ -214,7 +214,9 @@ __path_expand(char *buf, int len, const char *path, bool force_copy)
             env_home = getenv("HOME") ?: root;
         }
         if (env_home != root) {
-            snprintf(buf, len, "%s%s", env_home, path + 1);
+            if (snprintf(buf, len, "%s%s", env_home, path + 1) >= len) {
+                return NULL;
+            }
             return buf;
         }
         path++;
@@ -239,7 +241,7 @@ char *path_expand(char *buf, int len, const char *path)
 
     assert (len >= PATH_MAX);
 
-    path = __path_expand(path_l, sizeof(path_l), path, false);
+    path = RETHROW_P(__path_expand(path_l, sizeof(path_l), path, false));
 
     /* XXX: The use of path_canonify() here is debatable. */
     return path_canonify(buf, len, path) < 0 ? NULL : buf;
@@ -274,6 +276,30 @@ bool path_is_safe(const char *path)
     return true;
 }
 
+__attribute__((format(printf, 1, 0)))
+static bool path_va_is_home(const char *fmt, va_list args)
+{
+    char head[3];
+    va_list cpy;
+
+    va_copy(cpy, args);
+    vsnprintf(head, sizeof(head), fmt, cpy);
+    va_end(cpy);
+
+    return head[0] == '~' && head[1] == '/';
+}
+
+__attribute__((format(printf, 2, 0)))
+static int path_va_expand(char buf[static PATH_MAX], const char *fmt,
+                          va_list args)
+{
+    char path[PATH_MAX];
+
+    THROW_ERR_IF(vsnprintf(path, PATH_MAX, fmt, args) >= PATH_MAX);
+    RETHROW_PN(__path_expand(buf, PATH_MAX, path, true));
+    return strlen(buf);
+}
+
 int path_va_extend(char buf[static PATH_MAX], const char *prefix,
                    const char *fmt, va_list args)
 {
@@ -297,10 +323,8 @@ int path_va_extend(char buf[static PATH_MAX], const char *prefix,
         if (suffix_len < PATH_MAX && temp_buf[0] == '/') {
             return vsnprintf(buf, PATH_MAX, fmt, args);
         }
-        if (suffix_len < PATH_MAX && temp_buf[0] == '~') {
-            vsnprintf(temp_buf, PATH_MAX, fmt, args);
-            __path_expand(buf, PATH_MAX, temp_buf, true);
-            return strlen(buf);
+        if (path_va_is_home(fmt, args)) {
+            return path_va_expand(buf, fmt, args);
         }
 
         if (!suffix_len && prefix_len == PATH_MAX - 1) {
@@ -314,16 +338,13 @@ int path_va_extend(char buf[static PATH_MAX], const char *prefix,
     suffix_len = vsnprintf(buf + prefix_len, PATH_MAX - prefix_len, fmt, cpy);
     va_end(cpy);
 
-    if (prefix_len && suffix_len
-    &&  unlikely(buf[prefix_len] == '/' || buf[prefix_len] == '~'))
+    if (suffix_len
+    &&  unlikely(buf[prefix_len] == '/'
+             || (buf[prefix_len] == '~' && path_va_is_home(fmt, args))))
     {
         /* slow path: optimistic prediction failed */
         if (buf[prefix_len] == '~') {
-            char temp_buf[PATH_MAX];
-
-            vsnprintf(temp_buf, PATH_MAX, fmt, args);
-            __path_expand(buf, PATH_MAX, temp_buf, true);
-            return strlen(buf);
+            return path_va_expand(buf, fmt, args);
         } else
         if (prefix_len + suffix_len < PATH_MAX) {
             p_move(buf, &buf[prefix_len], suffix_len + 1);
-- 
2.43.0


From 56ae57d63ca47944027df2b1df0aa476fd1224dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:12 +0000
Subject: [PATCH 117/154] fix: sockunion_equal: compare the names of abstract
 unix sockets

---
 src/net/addr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index 6e61bad..033f07a 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -37,8 +37,12 @@ bool sockunion_equal(const sockunion_t *a1, const sockunion_t *a2)
         return !memcmp(a1->sin6.sin6_addr.s6_addr, a2->sin6.sin6_addr.s6_addr,
                        sizeof(a2->sin6.sin6_addr.s6_addr));
 
-      case AF_UNIX:
-        return !strcmp(a1->sunix.sun_path, a2->sunix.sun_path);
+      case AF_UNIX: {
+        /* XXX: compare the whole names, abstract ones start with '\0'. */
+        socklen_t len = sockunion_len(a1);
+
+        return len == sockunion_len(a2) && !memcmp(a1, a2, len);
+      }
 
       default:
         e_panic("unknown kind of sockaddr: %d", a1->family);
-- 
2.43.0


From 486a0729bc00cdca8880a3eed60b339438002f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:24 +0000
Subject: [PATCH 118/154] fix: parse_http_url: refuse components that do not
 fit

---
 src/net/addr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/net/addr.c b/src/net/addr.c
index 033f07a..8dd1101 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -410,8 +410,10 @@ int parse_http_url(const char *url_path, bool allow_https, http_url_t *url)
     host_ps = ps;
     user_ps = ps_get_cspan(&ps, &ctype_isurlseparator);
 
+    /* XXX: a truncated component would be another one. */
 #define PS_COPY(_field, _ps)  \
-    pstrcpymem(url->_field, sizeof(url->_field), _ps.s, ps_len(&_ps))
+    PS_WANT(pstrcpymem(url->_field, sizeof(url->_field), _ps.s,              \
+                       ps_len(&_ps)) < sizeof(url->_field))
 
     if (!ps_done(&ps) && *ps.s == ':') {
         /* Colon is either the separator of user:passwd
-- 
2.43.0


From 3e6739e1b3af2d2ceed37e1fce2cd12fd45739e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:24 +0000
Subject: [PATCH 119/154] fix: parse_http_url: refuse characters after the port

---
 src/net/addr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/addr.c b/src/net/addr.c
index 8dd1101..0b487e5 100644
--- a/src/net/addr.c
+++ b/src/net/addr.c
@@ -440,6 +440,7 @@ int parse_http_url(const char *url_path, bool allow_https, http_url_t *url)
              * part was the host (not the user) */
             host_ps = user_ps;
             url->port = getport(pass_ps.s, &pass_ps.s);
+            PS_WANT(ps_done(&pass_ps));
         }
     } else {
         host_ps = user_ps;
-- 
2.43.0


From 79a1a96073406376c5116068baebd55c3962be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:20 +0000
Subject: [PATCH 120/154] fix: yaml: do not tag the data when an override
 replaces a null include

When the included document is null, the override replaces it entirely,
and the resulting object kept the tag "include:..." of the inclusion.
---
 src/core/yaml.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 8160413..cbf31b4 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -1702,6 +1702,11 @@ t_yaml_env_handle_include(yaml_parse_t * nonnull env,
     pstream_t path = ps_initlstr(&data->tag);
     yaml_data_t override = *data;
 
+    /* The tag is the inclusion itself, it is not part of the override, and
+     * must not be kept if the override replaces the included data. */
+    override.tag = LSTR_NULL_V;
+    override.tag_span = NULL;
+
     if (raw) {
         ps_skip(&path, strlen("includeraw:"));
     } else {
-- 
2.43.0


From defcfa5cac6a65472531bf6eb738d9cc8d7a70e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:52 +0000
Subject: [PATCH 121/154] fix: yaml: a string starting with a dollar is not
 always a whole variable

A string such as "$5 $(a)" was considered as being only the variable
"a", and its text was lost when the variable was set.
---
 src/core/yaml.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index cbf31b4..cdf97aa 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -1150,7 +1150,6 @@ t_yaml_env_add_variables(yaml_parse_t * nonnull env,
     pstream_t ps;
     qh_t(lstr) variables_found;
     bool whole = false;
-    bool starts_with_dollar;
     int var_pos = 0;
 
     assert (data->type == YAML_DATA_SCALAR
@@ -1159,7 +1158,6 @@ t_yaml_env_add_variables(yaml_parse_t * nonnull env,
     t_qh_init(lstr, &variables_found, 0);
 
     ps = ps_initlstr(&data->scalar.s);
-    starts_with_dollar = ps_peekc(ps) == '$';
     for (;;) {
         lstr_t name;
 
@@ -1186,9 +1184,7 @@ t_yaml_env_add_variables(yaml_parse_t * nonnull env,
         }
 
         if (name.s) {
-            if (ps_done(&ps) && starts_with_dollar
-            &&  qh_len(lstr, &variables_found) == 0)
-            {
+            if (ps_done(&ps) && name.s == data->scalar.s.s + strlen("$(")) {
                 /* The whole string is this variable */
                 whole = true;
             }
-- 
2.43.0


From c2089b49c3aabfc63a4ff58728c379709fcf79fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:55 +0000
Subject: [PATCH 122/154] fix: yaml: do not share the nodes of a variable
 between its uses

The value of a variable was shared by all its uses. When the value
referenced another variable, only its first use was replaced once that
other variable was set. When the value was an object or a sequence,
overriding one of the uses modified all the others.
---
 src/core/yaml.c | 50 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index cdf97aa..039d6ee 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -1341,6 +1341,54 @@ add_var_binding(lstr_t var_name, const lstr_t value,
 
 qm_kvec_t(str_value, lstr_t, lstr_t, qhash_lstr_hash, qhash_lstr_equal);
 
+/* Duplicate the nodes of a data.
+ *
+ * The value of a variable can be used several times in the AST. Each use must
+ * have its own nodes, as overrides and other variables are then applied on
+ * the nodes.
+ */
+static void
+t_yaml_data_dup(const yaml_data_t * nonnull data, yaml_data_t * nonnull out)
+{
+    *out = *data;
+
+    if (data->variable) {
+        out->variable = t_new(yaml_variable_t, 1);
+        out->variable->in_string = data->variable->in_string;
+        t_qv_init(&out->variable->var_bitmap, data->variable->var_bitmap.len);
+        qv_extend_tab(&out->variable->var_bitmap,
+                      &data->variable->var_bitmap);
+        t_qh_init(lstr, &out->variable->var_names, 0);
+        qh_for_each_key_p(lstr, name, &data->variable->var_names) {
+            qh_add(lstr, &out->variable->var_names, name);
+        }
+    }
+
+    switch (data->type) {
+      case YAML_DATA_SCALAR:
+        break;
+      case YAML_DATA_SEQ:
+        out->seq = t_new(yaml_seq_t, 1);
+        t_qv_init(&out->seq->datas, data->seq->datas.len);
+        tab_for_each_ptr(elem, &data->seq->datas) {
+            t_yaml_data_dup(elem, qv_growlen(&out->seq->datas, 1));
+        }
+        t_qv_init(&out->seq->pres_nodes, data->seq->pres_nodes.len);
+        qv_extend_tab(&out->seq->pres_nodes, &data->seq->pres_nodes);
+        break;
+      case YAML_DATA_OBJ:
+        out->obj = t_new(yaml_obj_t, 1);
+        t_qv_init(&out->obj->fields, data->obj->fields.len);
+        tab_for_each_ptr(kd, &data->obj->fields) {
+            yaml_key_data_t *out_kd = qv_growlen(&out->obj->fields, 1);
+
+            *out_kd = *kd;
+            t_yaml_data_dup(&kd->data, &out_kd->data);
+        }
+        break;
+    }
+}
+
 static int
 t_yaml_scalar_replace_variables(yaml_parse_t * nonnull env,
                                 yaml_data_t * nonnull data,
@@ -1399,7 +1447,7 @@ t_yaml_scalar_replace_variables(yaml_parse_t * nonnull env,
                 return 0;
             }
         } else {
-            *data = pair->data;
+            t_yaml_data_dup(&pair->data, data);
             return 0;
         }
     }
-- 
2.43.0


From 667a93b055b3a9973c2d01c670e18ec83a5eb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:39 +0000
Subject: [PATCH 123/154] fix: yaml: variables in a string next to values
 making new '$('

When the value set in a templated string forms a '$(' pattern with the
text around it ("$$(a)" with "(b)" as the value of a), the bitmap of
the variables left in the string was shifted, and the next variables were
not replaced properly.
---
 src/core/yaml.c | 54 +++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 039d6ee..594afdc 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -1228,20 +1228,6 @@ t_yaml_env_add_variables(yaml_parse_t * nonnull env,
     return 0;
 }
 
-static int count_escaped_vars(const lstr_t value)
-{
-    pstream_t ps = ps_initlstr(&value);
-    int cnt = 0;
-
-    while (ps_skip_afterchr(&ps, '$') >= 0) {
-        if (ps_peekc(ps) == '(') {
-            cnt++;
-        }
-    }
-
-    return cnt;
-}
-
 /* Replace occurrences of $name with `value` in `data`.
  *
  * If var_bitmap is non-NULL, it is used to detect which '$' characters
@@ -1256,19 +1242,13 @@ t_tpl_set_variable(const lstr_t tpl_string, const lstr_t name,
     t_SB_1k(buf);
     pstream_t ps;
     pstream_t sub;
-    qv_t(u8) *new_bitmap = NULL;
+    qv_t(i32) vars_left;
     int bitmap_pos = 0;
-    int new_bitmap_pos = 0;
-    int nb_raw_dollars;
 
-    /* If the string to insert contains '$(' patterns, we need to properly
-     * consider them to generate the right bitmap. */
-    nb_raw_dollars = count_escaped_vars(value);
+    /* Offsets in buf of the variables that are not replaced. */
+    t_qv_init(&vars_left, 0);
 
     ps = ps_initlstr(&tpl_string);
-    if (var_bitmap->len > 0 || nb_raw_dollars > 0) {
-        new_bitmap = t_qv_new(u8, 0);
-    }
 
     for (;;) {
         pstream_t cpy;
@@ -1289,7 +1269,6 @@ t_tpl_set_variable(const lstr_t tpl_string, const lstr_t name,
 
         if (!var_bitmap_test_bit(var_bitmap, bitmap_pos)) {
             bitmap_pos += 1;
-            new_bitmap_pos += 1;
             /* add '$' and continue to get to next '$' char */
             sb_addc(&buf, ps_getc(&ps));
             continue;
@@ -1301,17 +1280,13 @@ t_tpl_set_variable(const lstr_t tpl_string, const lstr_t name,
         var_name = ps_parse_variable_name(&cpy);
         if (lstr_equal(var_name, name)) {
             sb_add_lstr(&buf, value);
-            new_bitmap_pos += nb_raw_dollars;
         } else {
             pstream_t var_string;
 
+            qv_append(&vars_left, buf.len);
             if (expect(ps_get_ps_upto(&ps, cpy.b, &var_string) >= 0)) {
                 sb_add_ps(&buf, var_string);
             }
-            if (new_bitmap) {
-                var_bitmap_set_bit(new_bitmap, new_bitmap_pos);
-                new_bitmap_pos += 1;
-            }
         }
         ps = cpy;
     }
@@ -1319,8 +1294,25 @@ t_tpl_set_variable(const lstr_t tpl_string, const lstr_t name,
     logger_trace(&_G.logger, 2, "apply replacement $(%pL)=%pL, data value "
                  "changed from `%pL` to `%pL`", &name, &value,
                  &tpl_string, &buf);
-    if (new_bitmap) {
-        *var_bitmap = *new_bitmap;
+
+    /* Generate the new bitmap from the final string: the inserted value can
+     * contain '$(' patterns, or form one with the text around it, and none of
+     * those are variables. */
+    if (vars_left.len > 0) {
+        int left_pos = 0;
+
+        t_qv_init(var_bitmap, 0);
+        bitmap_pos = 0;
+        for (int i = 0; i + 1 < buf.len; i++) {
+            if (buf.data[i] != '$' || buf.data[i + 1] != '(') {
+                continue;
+            }
+            if (left_pos < vars_left.len && vars_left.tab[left_pos] == i) {
+                var_bitmap_set_bit(var_bitmap, bitmap_pos);
+                left_pos++;
+            }
+            bitmap_pos++;
+        }
     }
 
     return LSTR_SB_V(&buf);
-- 
2.43.0


From 06b130527b5656650ee634a7472b7618b1e86d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:38 +0000
Subject: [PATCH 124/154] fix: yaml: repack overrides of keys that are not only
 alphanumerical

The key in the path of an overridden node was cut at the first '-', '_',
etc, and the packed override was not a valid document.
---
 src/core/yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 594afdc..5607fec 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4737,7 +4737,7 @@ t_set_data_from_path(const yaml_data_t * nonnull data, pstream_t path,
         lstr_t key;
 
         ps_skipc(&path, '.');
-        ps_key = ps_get_span(&path, &ctype_isalnum);
+        ps_key = ps_get_span(&path, &ctype_yaml_key_chars);
         key = LSTR_PS_V(&ps_key);
 
         if (new) {
-- 
2.43.0


From 2142449dab6f433d4d2f02473d7dba8de35a49ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 125/154] fix: yaml: repack the override of a data that is
 itself included

The override was applied twice on the same path: on the include node, and
on the included data. The original value was lost, and the override kept a
pointer on a data of the stack.
---
 src/core/yaml.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 5607fec..65ca21b 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5581,8 +5581,11 @@ static int t_yaml_pack_data(yaml_pack_env_t * nonnull env,
         /* This should only be a replace, as additions can only be done
          * on keys or seq indicators. So *override should be not NULL, but
          * as a user can write its own presentation data, we cannot assert
-         * it. */
-        if (override && likely(override->data)) {
+         * it.
+         * A node already found must be ignored: an included data is packed
+         * twice for the same path, for the inclusion node then for the data
+         * in the subfile. */
+        if (override && likely(override->data) && !override->found) {
             logger_trace(&_G.logger, 2,
                          "packing non-overriden data in path `%*pM`",
                          LSTR_FMT_ARG(yaml_pack_env_get_curpath(env)));
-- 
2.43.0


From 184bac0361bb93a5386b60a2a9bdfceb12fa17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 126/154] fix: yaml: propagate the errors when packing merge
 keys

---
 src/core/yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 65ca21b..2cb423e 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4437,8 +4437,9 @@ static int yaml_pack_obj(yaml_pack_env_t * nonnull env,
 
         t_yaml_build_obj_with_merge_keys(obj, pres->merge_key, &data);
 
-        t_yaml_pack_data_with_doc_pres(env, &data,
-                                       pres->merge_key->presentation);
+        res += RETHROW(t_yaml_pack_data_with_doc_pres(
+            env, &data, pres->merge_key->presentation
+        ));
     } else {
         tab_for_each_ptr(pair, &obj->fields) {
             res += RETHROW(t_yaml_pack_key_data(env, pair));
-- 
2.43.0


From 8f94a2661bb4f7b00f588b6db107ac395f30e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:43 +0000
Subject: [PATCH 127/154] fix: yaml: parse a null sequence element at the end
 of a document

The packer writes a null element with a lone dash, without any new line if
it ends the document. The parser refused such a document, or parsed the
dash as a string.
---
 src/core/yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 2cb423e..aff4b5e 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -1073,11 +1073,12 @@ static int yaml_env_ltrim(yaml_parse_t *env)
 static bool
 ps_startswith_yaml_seq_prefix(const pstream_t *ps)
 {
-    if (!ps_has(ps, 2)) {
+    if (!ps_has(ps, 1) || ps->s[0] != '-') {
         return false;
     }
 
-    return ps->s[0] == '-' && isspace(ps->s[1]);
+    /* The dash can be the last character of the document. */
+    return ps_len(ps) == 1 || isspace(ps->s[1]);
 }
 
 /* r:48-57 r:65-90 r:97-122 s:'-_~<'
-- 
2.43.0


From 07471abf644f8f184eeaa6cbf4c310876fefcbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 128/154] fix: yaml: do not pack empty override objects

When none of the overridden nodes are left in the data, an empty object was
written as the override, which is refused when the included data is not an
object.
---
 src/core/yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index aff4b5e..481a6aa 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5174,6 +5174,12 @@ t_yaml_pack_include_with_override(
             qv_remove_last(&env->overrides);
             t_build_override_data(override, &settings);
         }
+
+        /* All the variables and overrides can be gone if the data changed. An
+         * empty override is not valid for all the types of data. */
+        if (settings.type == YAML_DATA_OBJ && settings.obj->fields.len == 0) {
+            yaml_data_set_null(&settings);
+        }
     } else {
         yaml_data_set_null(&settings);
     }
-- 
2.43.0


From 14300e698a3779205b5a371ccdc4ff51b24a123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:37 +0000
Subject: [PATCH 129/154] fix: yaml: keep the empty elements of merge keys when
 repacking

When an element of a merge key was an empty object, it was dropped when
repacking, and the presentation of the following elements (comments,
includes) was applied on the wrong ones.
---
 src/core/yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 481a6aa..5b2c34b 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4389,7 +4389,7 @@ static void t_yaml_build_obj_with_merge_keys(
                 kd->data = *val;
             }
         }
-        if (fields->len == 0) {
+        if (fields->len == 0 && elem->keys.len > 0) {
             qv_remove_last(&objs);
             if (pos == elems.len - 1 && !has_only_merge_key) {
                 has_only_merge_key = true;
-- 
2.43.0


From d9078ab5369781b8676578d52215e47af011a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:32 +0000
Subject: [PATCH 130/154] fix: yaml: do not overwrite subfiles included from
 several directories

When packing, a subfile included as "a.yml" and as "../a.yml" from a
subdirectory was not detected as being the same file. If the two datas were
different, one overwrote the other, instead of being written in another
file.
---
 src/core/yaml.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 5b2c34b..adfdd89 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -4812,6 +4812,8 @@ check_subfile(yaml_pack_env_t * nonnull env, uint64_t checksum,
 
     /* compute new outdir */
     path_extend(fullpath, env->outdirpath.s, "%s", relative_path);
+    /* the same file can be included from several directories */
+    path_simplify(fullpath);
     path = LSTR(fullpath);
 
     assert (env->subfiles);
-- 
2.43.0


From 2b1a39a8538af2f1674c76ab7342a03205fced20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:32 +0000
Subject: [PATCH 131/154] fix: yaml: do not lose the tag of a string packed in
 place of a raw file

---
 src/core/yaml.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index adfdd89..7e5699e 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5023,6 +5023,9 @@ yaml_data_can_be_packed_raw(const yaml_data_t * nonnull data)
 
     switch (data->scalar.type) {
       case YAML_SCALAR_STRING:
+        /* a tag cannot be written in the raw file */
+        return !data->tag.s;
+
       case YAML_SCALAR_BYTES:
         return true;
 
-- 
2.43.0


From 56c9a9482b71924b58e32b37dfd546ee6a5cd9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:46 +0000
Subject: [PATCH 132/154] fix: yaml: do not repack an override that changes the
 type of the data

If an overridden scalar was replaced in the data by an object or a
sequence, the packed override was refused by the parser. Write the new data
in the subfile instead.
---
 src/core/yaml.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 7e5699e..4ffc6a5 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -3383,6 +3383,9 @@ typedef struct yaml_pack_override_node_t {
      * from the AST.
      */
     bool found;
+
+    /* The path of the overridden value was already packed. */
+    bool visited;
 } yaml_pack_override_node_t;
 
 qm_kvec_t(override_nodes, lstr_t, yaml_pack_override_node_t,
@@ -5579,6 +5582,16 @@ t_deduce_variable_values(yaml_pack_env_t * nonnull env,
 /* }}} */
 /* {{{ Pack data */
 
+/* An override cannot change the type of the data, unless it was null. */
+static bool
+yaml_data_can_be_overridden(const yaml_data_t * nonnull original,
+                            const yaml_data_t * nonnull data)
+{
+    return original->type == data->type
+        || (original->type == YAML_DATA_SCALAR
+         && original->scalar.type == YAML_SCALAR_NULL);
+}
+
 static int t_yaml_pack_data(yaml_pack_env_t * nonnull env,
                             const yaml_data_t * nonnull data)
 {
@@ -5595,15 +5608,18 @@ static int t_yaml_pack_data(yaml_pack_env_t * nonnull env,
          * on keys or seq indicators. So *override should be not NULL, but
          * as a user can write its own presentation data, we cannot assert
          * it.
-         * A node already found must be ignored: an included data is packed
+         * A node already visited must be ignored: an included data is packed
          * twice for the same path, for the inclusion node then for the data
          * in the subfile. */
-        if (override && likely(override->data) && !override->found) {
-            logger_trace(&_G.logger, 2,
-                         "packing non-overriden data in path `%*pM`",
-                         LSTR_FMT_ARG(yaml_pack_env_get_curpath(env)));
-            SWAP(const yaml_data_t *, data, override->data);
-            override->found = true;
+        if (override && likely(override->data) && !override->visited) {
+            override->visited = true;
+            if (yaml_data_can_be_overridden(override->data, data)) {
+                logger_trace(&_G.logger, 2,
+                             "packing non-overriden data in path `%*pM`",
+                             LSTR_FMT_ARG(yaml_pack_env_get_curpath(env)));
+                SWAP(const yaml_data_t *, data, override->data);
+                override->found = true;
+            }
         }
         yaml_pack_env_pop_path(env, path_len);
     } else {
-- 
2.43.0


From ee78b125bb4c87c52ff37b208dd352bb5dbfd2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:36 +0000
Subject: [PATCH 133/154] fix: yaml: do not lose the tag of a string packed
 with a template

---
 src/core/yaml.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 4ffc6a5..923743e 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5503,6 +5503,25 @@ deduce_var_in_string(lstr_t tpl, lstr_t value,
     return 0;
 }
 
+/* Is the template only made of a variable, ie "$(name)". */
+static bool yaml_tpl_is_variable(lstr_t tpl, lstr_t * nullable name)
+{
+    pstream_t ps = ps_initlstr(&tpl);
+    lstr_t var_name;
+
+    if (ps_skipc(&ps, '$') < 0 || ps_skipc(&ps, '(') < 0) {
+        return false;
+    }
+    var_name = ps_parse_variable_name(&ps);
+    if (!var_name.s || !ps_done(&ps)) {
+        return false;
+    }
+    if (name) {
+        *name = var_name;
+    }
+    return true;
+}
+
 /* Deduce values for active variables, by comparing the original string
  * containing variables, with the value of the AST.
  *
@@ -5522,7 +5541,8 @@ t_deduce_variable_values(yaml_pack_env_t * nonnull env,
     qv_extend_tab(&var_bitmap, variables_bitmap);
 
     if (data->type == YAML_DATA_SCALAR
-    &&  data->scalar.type == YAML_SCALAR_STRING)
+    &&  data->scalar.type == YAML_SCALAR_STRING
+    &&  (!data->tag.s || !yaml_tpl_is_variable(*var_string, NULL)))
     {
         lstr_t var_name;
         lstr_t var_value;
@@ -5559,14 +5579,9 @@ t_deduce_variable_values(yaml_pack_env_t * nonnull env,
     } else {
         /* If data is not a string, it should be matched on a template
          * containing only the variable, ie "$(name)". */
-        pstream_t tpl_ps = ps_initlstr(var_string);
         lstr_t name;
 
-        if (ps_skipc(&tpl_ps, '$') < 0 || ps_skipc(&tpl_ps, '(') < 0) {
-            return -1;
-        }
-        name = ps_parse_variable_name(&tpl_ps);
-        if (!name.s || !ps_done(&tpl_ps)) {
+        if (!yaml_tpl_is_variable(*var_string, &name)) {
             return -1;
         }
 
@@ -5645,6 +5660,10 @@ static int t_yaml_pack_data(yaml_pack_env_t * nonnull env,
                 yaml_data_t *new_data = t_new(yaml_data_t, 1);
 
                 yaml_data_set_string(new_data, tpl);
+                if (!yaml_tpl_is_variable(tpl, NULL)) {
+                    /* otherwise, the tag is in the value of the variable */
+                    new_data->tag = data->tag;
+                }
                 data = new_data;
             } else {
                 logger_trace(&_G.logger, 2, "change to template `%pL` "
-- 
2.43.0


From cc055763fe896e10a1bedfcfaa9c9c587971342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:34 +0000
Subject: [PATCH 134/154] fix: yaml: do not pack a value that is not a string
 in a quoted variable

A quoted variable is always a string. When the data was replaced by
another type, it was set as the value of the variable, and was either read
back as a string or refused.
---
 src/core/yaml.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 923743e..13f4efb 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5504,11 +5504,16 @@ deduce_var_in_string(lstr_t tpl, lstr_t value,
 }
 
 /* Is the template only made of a variable, ie "$(name)". */
-static bool yaml_tpl_is_variable(lstr_t tpl, lstr_t * nullable name)
+static bool
+yaml_tpl_is_variable(lstr_t tpl, bool quoted, lstr_t * nullable name)
 {
     pstream_t ps = ps_initlstr(&tpl);
     lstr_t var_name;
 
+    if (quoted) {
+        /* always a string */
+        return false;
+    }
     if (ps_skipc(&ps, '$') < 0 || ps_skipc(&ps, '(') < 0) {
         return false;
     }
@@ -5532,7 +5537,7 @@ static int
 t_deduce_variable_values(yaml_pack_env_t * nonnull env,
                          const yaml_data_t * nonnull data,
                          const u8__array_t * nonnull variables_bitmap,
-                         lstr_t * nonnull var_string)
+                         bool quoted, lstr_t * nonnull var_string)
 {
     lstr_t new_name;
     qv_t(u8) var_bitmap;
@@ -5542,7 +5547,7 @@ t_deduce_variable_values(yaml_pack_env_t * nonnull env,
 
     if (data->type == YAML_DATA_SCALAR
     &&  data->scalar.type == YAML_SCALAR_STRING
-    &&  (!data->tag.s || !yaml_tpl_is_variable(*var_string, NULL)))
+    &&  (!data->tag.s || !yaml_tpl_is_variable(*var_string, quoted, NULL)))
     {
         lstr_t var_name;
         lstr_t var_value;
@@ -5581,7 +5586,7 @@ t_deduce_variable_values(yaml_pack_env_t * nonnull env,
          * containing only the variable, ie "$(name)". */
         lstr_t name;
 
-        if (!yaml_tpl_is_variable(*var_string, &name)) {
+        if (!yaml_tpl_is_variable(*var_string, quoted, &name)) {
             return -1;
         }
 
@@ -5655,12 +5660,12 @@ static int t_yaml_pack_data(yaml_pack_env_t * nonnull env,
 
             if (t_deduce_variable_values(env, data,
                                          &node->tpl->variables_bitmap,
-                                         &tpl) >= 0)
+                                         node->quoted, &tpl) >= 0)
             {
                 yaml_data_t *new_data = t_new(yaml_data_t, 1);
 
                 yaml_data_set_string(new_data, tpl);
-                if (!yaml_tpl_is_variable(tpl, NULL)) {
+                if (!yaml_tpl_is_variable(tpl, node->quoted, NULL)) {
                     /* otherwise, the tag is in the value of the variable */
                     new_data->tag = data->tag;
                 }
-- 
2.43.0


From 84734c9527b9a60d7f3799411fcdc5e1e39532ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:57 +0000
Subject: [PATCH 135/154] fix: yaml: keep the empty override of an included
 object

It is valid in that case, and the tests expect it.
---
 src/core/yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/yaml.c b/src/core/yaml.c
index 13f4efb..625bb68 100644
--- a/src/core/yaml.c
+++ b/src/core/yaml.c
@@ -5185,7 +5185,9 @@ t_yaml_pack_include_with_override(
 
         /* All the variables and overrides can be gone if the data changed. An
          * empty override is not valid for all the types of data. */
-        if (settings.type == YAML_DATA_OBJ && settings.obj->fields.len == 0) {
+        if (subdata->type != YAML_DATA_OBJ
+        &&  settings.type == YAML_DATA_OBJ && settings.obj->fields.len == 0)
+        {
             yaml_data_set_null(&settings);
         }
     } else {
-- 
2.43.0


From 7f1434449650c9163985793cacc58f0d7b4a6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:57 +0000
Subject: [PATCH 136/154] fix: logger_set_level: return the previous level,
 even after other changes

The level of the logger is only refreshed when it is used: after a change of
level of a parent or a reset, logger_set_level() returned an outdated or an
internal value.
---
 src/core/log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/log.c b/src/core/log.c
index 01e031c..144c14d 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -400,6 +400,9 @@ int logger_set_level(lstr_t name, int level, unsigned flags)
         return LOG_UNDEFINED;
     }
 
+    /* the level to return may have to be updated */
+    __logger_do_refresh(logger);
+
     if (level == LOG_UNDEFINED) {
         logger->level_flags = logger->default_level_flags;
     } else {
-- 
2.43.0


From 92b674d68763cc11f79019c60b2429880b2c35a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:18 +0000
Subject: [PATCH 137/154] fix: logger_set_level: really inherit the level with
 LOG_INHERITS

The default level of the logger was used instead.
---
 src/core/log.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/log.c b/src/core/log.c
index 144c14d..9465a0b 100644
--- a/src/core/log.c
+++ b/src/core/log.c
@@ -297,6 +297,9 @@ void __logger_do_refresh(logger_t *logger)
     }
 
     logger->level = logger->default_level;
+    if (logger->defined_level == LOG_INHERITS && logger->parent) {
+        logger->level = LOG_INHERITS;
+    }
 
     if (logger->defined_level >= 0) {
         logger->level = logger->defined_level;
-- 
2.43.0


From 735f400ea75b2f93c3912e35d7c5eca9074590b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:27 +0000
Subject: [PATCH 138/154] fix: parseopt: unset options whose name is a prefix
 of `no-...'

`--no-n' and `--no-no' were unknown options.
---
 src/core/parseopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parseopt.c b/src/core/parseopt.c
index 699f0cb..9c2405d 100644
--- a/src/core/parseopt.c
+++ b/src/core/parseopt.c
@@ -250,7 +250,7 @@ static int parse_long_opt(popt_state_t *st, char *arg, popt_t *opts)
             continue;
         }
 
-        if (!strstart(arg_opt, opts->lng, &p)) {
+        if (!strstart(arg_opt, opts->lng, &p) || (*p && *p != '=')) {
             if (!strstart(arg_opt, "no-", &p) || !strstart(p, opts->lng, &p))
             {
                 continue;
-- 
2.43.0


From 89889deedd2f0437f5d615b766f49dc1c5513f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:27 +0000
Subject: [PATCH 139/154] fix: parseopt: unset integer options whatever the
 value of errno

A previous ERANGE error made `--no-<option>' fail.
---
 src/core/parseopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/parseopt.c b/src/core/parseopt.c
index 9c2405d..c6dd185 100644
--- a/src/core/parseopt.c
+++ b/src/core/parseopt.c
@@ -161,6 +161,7 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
       {
           uint64_t v;
 
+          errno = 0;
           if (flags & FLAG_UNSET) {
               v = opt->init;
           } else {
@@ -168,7 +169,6 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
                   return opterror(opt, "requires a value", flags);
               }
 
-              errno = 0;
               if (opt->kind == OPTION_UINT) {
                   lstr_t value = lstr_ltrim(LSTR(opt_arg(st)));
 
-- 
2.43.0


From b00c017e4fe9d00efcc7e1bc2a8c3723201634c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 140/154] fix: rpc-channel: send the file descriptors after a
 write that was refused

When sendmsg() fails with EAGAIN, the messages stay in the vector of
what is to be written, but their file descriptors were forgotten: the
messages were sent without them at the next attempt, and the peer, which
expects them, closes the channel (or asserts).
---
 src/iop/rpc-channel.blk | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 3bd579d..5e193c7 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -933,6 +933,15 @@ static int ic_write(ichannel_t *ic, int fd)
         ic_msg_t *msg;
         ic_msg_t *last_fd_msg = NULL;
 
+        /* The descriptors of the messages of a write that was refused have
+         * not been sent. */
+        htlist_for_each_entry(msg, &ic->iov_list, msg_link) {
+            if (msg->fd >= 0) {
+                fdv[fdc++] = msg->fd;
+                last_fd_msg = msg;
+            }
+        }
+
         while (!htlist_is_empty(&ic->msg_list) && ic->iov_total_len < IC_PKT_MAX) {
             msg = ic_pop_msg(ic);
 
-- 
2.43.0


From fc74397d557a774f7f66410f4e80f5aead8e6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 141/154] fix: rpc-channel: keep the order of the messages when
 the peer leaves

When the queue is filtered after a bye, the last message of normal
priority was recorded as being the first message of the queue, so that
the next ones were queued in front of messages of the same priority, or
of a higher one.
---
 src/iop/rpc-channel.blk | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 5e193c7..bd7500c 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -767,7 +767,7 @@ static void ic_add_msg_tail(ichannel_t *ic, ic_msg_t *msg)
 {
     htlist_add_tail(&ic->msg_list, &msg->msg_link);
     if (msg->priority == EV_PRIORITY_NORMAL) {
-        ic->last_normal_prio_msg = ic->msg_list.head;
+        ic->last_normal_prio_msg = &msg->msg_link;
     }
 }
 
-- 
2.43.0


From f0d1ab9f962ef57fc4b49713836b988120bf176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:41 +0000
Subject: [PATCH 142/154] fix: rpc-channel: count each query once in the length
 of the queue

The length of the queue was decremented twice for a query with a timeout
that was cancelled and then expired, and once for an asynchronous query
that expired though it had not been counted.
---
 src/iop/rpc-channel.blk | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index bd7500c..729b908 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -2277,6 +2277,7 @@ void ic_msg_cancel(ic_msg_t *msg)
     }
     msg->canceled = true;
     msg->ic->queue_len--;
+    el_unregister(&msg->timeout_timer);
 }
 
 static void ic_msg_on_timeout(el_t ev, el_data_t data)
@@ -2291,7 +2292,9 @@ static void ic_msg_on_timeout(el_t ev, el_data_t data)
 
     msg->timeout_timer = NULL;
     msg->canceled = true;
-    msg->ic->queue_len--;
+    if (!msg->async) {
+        msg->ic->queue_len--;
+    }
 
     while (!htlist_is_empty(queue)
     &&    (htlist_first_entry(queue, ic_msg_t, msg_link)->canceled))
-- 
2.43.0


From c759d4eaa5bb59b50d7b1a82e7a83f30eb0ffa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:59 +0000
Subject: [PATCH 143/154] fix: rpc-channel: abort the queries of a local
 asynchronous channel once

The callback of a query that was still queued in a local asynchronous
channel when the channel was wiped was called twice: once from the queue
and once from the table of the queries that wait for an answer.
---
 src/iop/rpc-channel.blk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 729b908..16c916c 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -804,9 +804,9 @@ static void ic_cancel_all(ichannel_t *ic)
     }
 
     while (!htlist_is_empty(&ic->local_async_queries)) {
+        /* Queries with a slot are aborted with those of ic->queries. */
         msg = htlist_pop_entry(&ic->local_async_queries, ic_msg_t, msg_link);
-        __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
-        if (msg->cmd <= 0 || msg->slot == 0) {
+        if (msg->slot == 0) {
             ic_msg_delete(&msg);
         }
     }
-- 
2.43.0


From 15fbf77254d7b72d963340adc11dfad14e69eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:59 +0000
Subject: [PATCH 144/154] fix: rpc-channel: forget the queries of a connection
 that is closed

The queries aborted by a disconnection were still counted in the length
of the queue, and the queries received but not answered, which cannot be
answered anymore, as pending: the channel never looked empty again after
its next connection, and so was never closed after a bye.
---
 src/iop/rpc-channel.blk | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 16c916c..2d1fa86 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -823,6 +823,9 @@ static void ic_cancel_all(ichannel_t *ic)
         qm_del_at(ic_msg, &h, pos);
 
         msg = h.values[pos];
+        if (!msg->canceled) {
+            ic->queue_len--;
+        }
         __ic_msg_reply_err(ic, msg, IC_MSG_ABORT);
         ic_msg_delete(&msg);
     }
@@ -2060,6 +2063,7 @@ void ic_disconnect(ichannel_t *ic)
     if (ic->elh) {
         el_unregister(&ic->elh);
         ic_cancel_all(ic);
+        ic->pending = 0;
 #ifdef IC_DEBUG_REPLIES
         qh_wipe(ic_replies, &ic->dbg_replies);
         qh_init(ic_replies, &ic->dbg_replies);
-- 
2.43.0


From 8a446b0bc438b64b3c13d70234e0c7b5c0c593c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:27 +0000
Subject: [PATCH 145/154] fix: rpc: do not assert when a peer announces a
 descriptor it does not send

A peer that sets IC_MSG_HAS_FD in a message without passing a file
descriptor made ic_read() fail on an assertion: the channel must be closed,
as it is for the other malformed messages.
---
 src/iop/rpc-channel.blk | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 2d1fa86..809e90b 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1952,7 +1952,6 @@ static int ic_read(ichannel_t *ic, short events, int sock)
         RETHROW(ic_check_msg_hdr_flags(ic, slot, flags));
         if (unlikely(flags & IC_MSG_HAS_FD)) {
             if (ic->fds.len < 1) {
-                assert (ic->fd_overflow);
                 return -1;
             } else {
                 ic->current_fd = ic->fds.tab[0];
-- 
2.43.0


From 1ffca22cd85890bae1b7f58097b79c641b68e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:27 +0000
Subject: [PATCH 146/154] fix: rpc: do not assert when a peer sends an error
 answer with a payload

Only IC_MSG_INVALID carries a text. What follows another status comes from
the peer and must not be trusted by an assertion: ignore it.
---
 src/iop/rpc-channel.blk | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index 809e90b..ac5943f 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1154,8 +1154,7 @@ ic_read_process_answer(ichannel_t *ic, int cmd, uint32_t slot,
     if (cmd == IC_MSG_EXN) {
         st = tmp->rpc->exn;
     } else {
-        assert (dlen == 0 || cmd == IC_MSG_INVALID);
-        if (dlen > 0) {
+        if (dlen > 0 && cmd == IC_MSG_INVALID) {
             lstr_t err = LSTR_INIT_V(data, dlen - 1);
             iop_set_err2(&err);
             ic_msg_trace(tmp, "%s %*pM", ic_status_to_string(cmd),
-- 
2.43.0


From 620d870897eb43706c1909c7c7d962acb2d74537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:59 +0000
Subject: [PATCH 147/154] fix: rpc: use after free when a peer answers a query
 not sent yet

A peer that answers to the slot of a query that still waits in the output
queues made the channel free the message while it was linked there, and use
it afterwards. Such an answer is bogus: close the channel, as for an answer
to an unknown slot.
---
 src/iop/rpc-channel.blk | 8 ++++++--
 src/iop/rpc-channel.h   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iop/rpc-channel.blk b/src/iop/rpc-channel.blk
index ac5943f..0acb399 100644
--- a/src/iop/rpc-channel.blk
+++ b/src/iop/rpc-channel.blk
@@ -1053,6 +1053,7 @@ static int ic_write(ichannel_t *ic, int fd)
             }
 
             htlist_pop(&ic->iov_list);
+            msg->queued = false;
             ic_msg_trace(msg, "written on socket");
             if (msg->cmd <= 0 || msg->slot == 0) {
                 ic_msg_delete(&msg);
@@ -1110,13 +1111,15 @@ ic_read_process_answer(ichannel_t *ic, int cmd, uint32_t slot,
                        const void *data, int dlen,
                        const ic_msg_t *unpacked_msg)
 {
-    ic_msg_t *tmp = ic_query_take(ic, slot);
+    ic_msg_t *tmp = qm_get_def_safe(ic_msg, &ic->queries, slot, NULL);
     const iop_struct_t *st;
 
-    if (unlikely(!tmp)) {
+    if (unlikely(!tmp || tmp->queued)) {
+        /* unknown query, or query that the peer cannot have received yet */
         errno = 0;
         return -1;
     }
+    ic_query_take(ic, slot);
 
     ic_msg_trace(tmp, "processing answer");
 
@@ -2213,6 +2216,7 @@ static void ic_queue(ichannel_t *ic, ic_msg_t *msg, uint32_t flags)
     }
 
     ic_msg_trace(msg, "queueing message on ic %p with cmd %x", ic, msg->cmd);
+    msg->queued = true;
 
     if (htlist_is_empty(&ic->msg_list)
     ||  msg->priority <= htlist_last_entry(&ic->msg_list, ic_msg_t,
diff --git a/src/iop/rpc-channel.h b/src/iop/rpc-channel.h
index 6406813..026a3f6 100644
--- a/src/iop/rpc-channel.h
+++ b/src/iop/rpc-channel.h
@@ -375,6 +375,8 @@ struct ic_msg_t {
     bool          trace      :  1; /**< Activate tracing for this message. */
     bool          canceled   :  1; /**< Is the query canceled ? */
     ev_priority_t priority   :  2; /**< Priority of the message. */
+    bool          queued     :  1; /**< private: is the message waiting to be
+                                        written on the socket ? */
     int32_t  cmd;                  /**< automatically filled by ic_query/reply
                                         */
     uint32_t slot;                 /**< automatically filled by ic_query/reply
-- 
2.43.0


From 6397bf07327b1a8d81bb9953630a854563126445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 148/154] fix: thr: do not touch a queue after it was released
 by its drain

thr_queue_drain() reset running_on once the queue was seen empty. From that
point, another thread may push the destroy job, drain the queue and delete it,
hence a use-after-free.
---
 src/core/thr-job.blk | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/core/thr-job.blk b/src/core/thr-job.blk
index 14eff80..3decfc9 100644
--- a/src/core/thr-job.blk
+++ b/src/core/thr-job.blk
@@ -600,18 +600,23 @@ static void thr_queue_drain(thr_queue_t *q)
     }
 
     id = thr_id();
-    atomic_store(&q->running_on, id);
     mpsc_queue_drain_start(&it, &q->q);
     do {
-        mpsc_node_t *m = mpsc_queue_drain_fast(&it, &thr_queue_run_node,
-                                               (data_t){ .ptr = NULL });
-        thr_qnode_t *n = thr_qnode_of(m);
+        mpsc_node_t *m;
+        thr_qnode_t *n;
+
+        atomic_store(&q->running_on, id);
+        m = mpsc_queue_drain_fast(&it, &thr_queue_run_node,
+                                  (data_t){ .ptr = NULL });
+        n = thr_qnode_of(m);
 
         job_run(n->job, n->syn);
         wipe = (n->job == &q->destroy);
+        /* As soon as mpsc_queue_drain_end() succeeds, another thread may run
+         * the queue and even delete it: don't touch it anymore after that.
+         */
+        atomic_store(&q->running_on, THR_QUEUE_NOT_RUNNING);
     } while (!mpsc_queue_drain_end(&it, &thr_qnode_destroy));
-    atomic_compare_exchange_strong(&q->running_on, &id,
-                                   THR_QUEUE_NOT_RUNNING);
 
     if (wipe) {
         thr_queue_delete(&q);
-- 
2.43.0


From 20697b7833560659239ed06173d494a414c36274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:51 +0000
Subject: [PATCH 149/154] fix: el: unregistrations and loops in the callbacks
 of child events

The callback of a child event could not unregister its event, nor the one of
another child that died meanwhile (assertion, then event destroyed twice), and
an event on a process that was dead at registration was fired again and
destroyed twice when its callback ran the loop.
---
 src/core/el.blk | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 283b103..3334a4e 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -358,14 +358,23 @@ static data_t el_destroy(ev_t **evp)
 static void el_child_fire(ev_t **ev)
 {
     ev_t *e = *ev;
+    pid_t pid = e->child.pid;
+
+    /* The callback may run the loop, which must not fire the event again, or
+     * unregister the event. */
+    dlist_remove(&e->ev_list);
+    dlist_init(&e->ev_list);
+    e->child.has_exited = true;
 
     if (EV_FLAG_HAS(e, IS_BLK)) {
         e->cb.child_blk(e, e->child.pid, e->child.status);
     } else {
         (*e->cb.child)(e, e->child.pid, e->child.status, e->priv);
     }
-    MODULE_METHOD_RUN_INT(at_fork_on_child_terminated, e->child.pid);
-    el_destroy(&e);
+    MODULE_METHOD_RUN_INT(at_fork_on_child_terminated, pid);
+    if (e->type != EV_UNUSED) {
+        el_destroy(&e);
+    }
 }
 
 /* {{{ blockers, before and idle events */
@@ -716,6 +725,7 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
             ev_assoc.child = _G.childs.values[pos];
             if (likely(ev_assoc.child)) {
                 ev_assoc.child->child.status = status;
+                ev_assoc.child->child.has_exited = true;
             }
             qv_append(&ev_assocs, ev_assoc);
             qm_del_at(ev_assoc, &_G.childs, pos);
@@ -725,7 +735,8 @@ static void el_sigchld_hook(ev_t *ev, int signo, data_t priv)
     t_seal();
 
     tab_for_each_ptr(ev_assoc, &ev_assocs) {
-        if (likely(ev_assoc->child)) {
+        /* The callback of another child may have unregistered this one. */
+        if (likely(ev_assoc->child && ev_assoc->child->type == EV_CHILD)) {
             el_child_fire(&ev_assoc->child);
         } else {
             MODULE_METHOD_RUN_INT(at_fork_on_child_terminated, ev_assoc->pid);
-- 
2.43.0


From bdb786b686cf40875718d3b8315cd703c33e3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 150/154] fix: el: do not oversleep after slow callbacks

The time to sleep was computed from the clock of the beginning of the turn, so
that timers were late by the time spent in the callbacks called before the
sleep (timers, before events, fired descriptors), although the loop was idle.
---
 src/core/el.blk | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 3334a4e..ec49137 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1815,11 +1815,11 @@ void el_loop_timeout(int timeout)
                     diff, timeout);
         }
         timeout = MAX(0, timeout - diff);
-        clk = end;
     }
 
     el_fd_process_fired();
-    el_loop_fds(el_timer_next_expiration(timeout, clk));
+    /* The callbacks may have taken some time. */
+    el_loop_fds(el_timer_next_expiration(timeout, get_clock()));
     el_loop_proxies();
     el_signal_process();
     if (_G.loop_depth <= 1) {
-- 
2.43.0


From ee317d6e657d305ff53ef5ed2d58bfd4308f00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:46 +0000
Subject: [PATCH 151/154] fix: el: corruption of the list of fired descriptors

el_fd_process_fired() left the events linked together by a list that did not
exist anymore: marking one again in a callback and unregistering another one
damaged the list (endless loop). And when a callback ran the loop, the shared
cache was overwritten and the remaining events were lost.
---
 src/core/el.blk | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index ec49137..0b59d7f 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -363,7 +363,6 @@ static void el_child_fire(ev_t **ev)
     /* The callback may run the loop, which must not fire the event again, or
      * unregister the event. */
     dlist_remove(&e->ev_list);
-    dlist_init(&e->ev_list);
     e->child.has_exited = true;
 
     if (EV_FLAG_HAS(e, IS_BLK)) {
@@ -1484,24 +1483,17 @@ int el_fd_loop(ev_t *ev, int timeout, ev_fd_loop_flags_t flags)
 
 static void el_fd_process_fired(void)
 {
-    uint8_t generation;
-
-    if (dlist_is_empty(&_G.fired)) {
-        return;
-    }
+    dlist_t fired = DLIST_INIT(fired);
 
-    generation = ev_cache_list(&_G.fired);
-
-    dlist_init(&_G.fired);
-    tab_for_each_entry(ev, &_G.cache) {
-        EV_FLAG_RST(ev, FD_FIRED);
-    }
-    tab_for_each_entry(ev, &_G.cache) {
-        if (ev->generation != generation) {
-            continue;
-        }
+    /* The callbacks may mark, unregister, or run the loop: each event leaves
+     * the list just before it is fired. */
+    dlist_splice(&fired, &_G.fired);
+    while (!dlist_is_empty(&fired)) {
+        ev_t *ev = dlist_first_entry(&fired, ev_t, ev_list);
 
         CHECK_EV_TYPE(ev, EV_FD);
+        EV_FLAG_RST(ev, FD_FIRED);
+        dlist_remove(&ev->ev_list);
         el_fd_fire(ev, POLLIN);
     }
 }
-- 
2.43.0


From 1dc2fd4586e323126b17e2f7fe1c22b7d8e444dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:16 +0000
Subject: [PATCH 152/154] fix: el: signals lost when the callback of a signal
 runs the loop

The events to call were kept in a cache that is shared with the loop run by the
callback: the events that remained to be called never were.
---
 src/core/el.blk | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 0b59d7f..7de6e3b 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -80,6 +80,8 @@ enum ev_flags_t {
     EV_FLAG_FD_FIRED      = (1U <<  9),
 
     EV_FLAG_FSW_ACTIVE    = (1U <<  8),
+
+    EV_FLAG_SIG_PENDING   = (1U <<  8),
 #define EV_FLAG_HAS(ev, f)   ((ev)->flags & EV_FLAG_##f)
 #define EV_FLAG_SET(ev, f)   ((ev)->flags |= EV_FLAG_##f)
 #define EV_FLAG_RST(ev, f)   ((ev)->flags &= ~EV_FLAG_##f)
@@ -616,9 +618,9 @@ static void el_sighandler(int signum, siginfo_t *siginfo, void *ctx)
 
 static void el_signal_process(void)
 {
-    uint8_t generation;
     uint32_t gotsigs = _G.gotsigs;
     struct timeval now;
+    bool found;
 
     if (!gotsigs)
         return;
@@ -626,18 +628,26 @@ static void el_signal_process(void)
     _G.gotsigs &= ~gotsigs;
     lp_gettv(&now);
 
-    generation = ev_cache_list(&_G.sigs);
-    tab_for_each_entry(ev, &_G.cache) {
-        int signo;
-
-        if (ev->generation != generation) {
-            continue;
+    dlist_for_each_entry(ev_t, ev, &_G.sigs, ev_list) {
+        CHECK_EV_TYPE(ev, EV_SIGNAL);
+        if (gotsigs & (1 << ev->signo)) {
+            EV_FLAG_SET(ev, SIG_PENDING);
         }
+    }
 
-        CHECK_EV_TYPE(ev, EV_SIGNAL);
+    /* The callbacks may change the list, or run the loop: look for the next
+     * pending event from the beginning. */
+    do {
+        found = false;
+        dlist_for_each_entry(ev_t, ev, &_G.sigs, ev_list) {
+            int signo = ev->signo;
+
+            if (!EV_FLAG_HAS(ev, SIG_PENDING)) {
+                continue;
+            }
+            EV_FLAG_RST(ev, SIG_PENDING);
+            found = true;
 
-        signo = ev->signo;
-        if (gotsigs & (1 << signo)) {
             if (signal_is_terminating(signo)) {
                 module_on_term(signo);
             }
@@ -647,8 +657,9 @@ static void el_signal_process(void)
                 (*ev->cb.signal)(ev, signo, ev->priv);
             }
             _G.has_run = true;
+            break;
         }
-    }
+    } while (found);
 }
 
 static bool el_signal_has_pending_events(void)
-- 
2.43.0


From ec980f23d5cf4558190f21c32cd281ceac01fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:16 +0000
Subject: [PATCH 153/154] fix: el: order of the timers after a change of
 tolerance

The tolerance of a repeated low resolution timer is not the same for its first
expiration, hence the key of the timer may decrease when it is rearmed. If its
callback registered a timer that comes first, the heap was not ordered anymore
and the timer was called too late.
---
 src/core/el.blk | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/el.blk b/src/core/el.blk
index 7de6e3b..41811e0 100644
--- a/src/core/el.blk
+++ b/src/core/el.blk
@@ -1129,7 +1129,9 @@ static void el_timer_process(uint64_t until)
 
                 ev->timer.expiry += ROUND_UP(delta, (uint64_t)ev->timer.repeat);
             }
-            __qhp_down(timer, &_G.timers, ev->timer.heappos);
+            /* The tolerance may have shrunk, and the callback may have put
+             * other timers before this one. */
+            qhp_fixup(timer, &_G.timers, ev->timer.heappos);
         } else
         if (!EV_FLAG_HAS(ev, TIMER_UPDATED)) {
             el_timer_unregister(&ev);
-- 
2.43.0


From ad67b8e0526c370e0e84ffb6240773de378dc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:06 +0000
Subject: [PATCH 154/154] fix: parseopt: refuse the empty value of a numerical
 option

"--num=" or "-n ''" was taken as 0, as well as a value made of spaces.
---
 src/core/parseopt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/parseopt.c b/src/core/parseopt.c
index c6dd185..efaf900 100644
--- a/src/core/parseopt.c
+++ b/src/core/parseopt.c
@@ -160,6 +160,7 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
       case OPTION_UINT:
       {
           uint64_t v;
+          bool empty;
 
           errno = 0;
           if (flags & FLAG_UNSET) {
@@ -172,15 +173,20 @@ static int get_value(popt_state_t *st, popt_t *opt, int flags)
               if (opt->kind == OPTION_UINT) {
                   lstr_t value = lstr_ltrim(LSTR(opt_arg(st)));
 
+                  empty = !value.len;
+
                   if (lstr_startswithc(value, '-')) {
                       /* -0 will return an error. */
                       return opterror(opt, "expects a positive value", flags);
                   }
                   v = strtoull(value.s, &s, 10);
               } else {
-                  v = strtoll(opt_arg(st), &s, 10);
+                  const char *value = opt_arg(st);
+
+                  v = strtoll(value, &s, 10);
+                  empty = s == value;
               }
-              if (*s || (errno && errno != ERANGE)) {
+              if (*s || empty || (errno && errno != ERANGE)) {
                   return opterror(opt, "expects a numerical value", flags);
               }
           }
-- 
2.43.0

